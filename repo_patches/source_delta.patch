From f53314ed31ba4d2a27a8aac13ea5b3a4b6ff0258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 01/85] fix: decode percent-encoded database name in connection
 strings

---
 pysqlsync/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/factory.py b/pysqlsync/factory.py
index aef20f1..ef4e3f3 100644
--- a/pysqlsync/factory.py
+++ b/pysqlsync/factory.py
@@ -103,7 +103,7 @@ def get_parameters(url: str) -> tuple[str, ConnectionParameters]:
         port=parts.port,
         username=unquote(parts.username) if parts.username else None,
         password=unquote(parts.password) if parts.password else None,
-        database=parts.path.lstrip("/") if parts.path else None,
+        database=unquote(parts.path.lstrip("/")) if parts.path else None,
         ssl=ssl,
     )
 
-- 
2.43.0


From d28be1cda1acdcc605a3c7a1c6117bb605115dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 02/85] fix: print IPv6 host of connection parameters in
 brackets

---
 pysqlsync/connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysqlsync/connection.py b/pysqlsync/connection.py
index 52a3556..1f6b3f9 100644
--- a/pysqlsync/connection.py
+++ b/pysqlsync/connection.py
@@ -102,6 +102,8 @@ class ConnectionParameters:
 
     def __str__(self) -> str:
         host = self.host or "localhost"
+        if ":" in host:
+            host = f"[{host}]"  # IPv6 address
         port = f":{self.port}" if self.port else ""
         username = f"{quote(self.username, safe='')}@" if self.username else ""
         database = f"/{quote(self.database, safe='')}" if self.database else ""
-- 
2.43.0


From 85fd4492d352015d70abb1b4caf9cfe1aa620bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 03/85] fix: do not use SSL with PostgreSQL when the SSL mode
 rules it out

asyncpg takes ssl=None as 'prefer', i.e. mode disable sent an SSL request, and
the plain attempts of prefer and allow were encrypted if the server agreed.
---
 pysqlsync/dialect/postgresql/connection.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index cea28ed..02f2c30 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -2,7 +2,7 @@ import dataclasses
 import logging
 import ssl
 import typing
-from typing import Iterable, Optional, TypeVar
+from typing import Iterable, Optional, TypeVar, Union
 
 import asyncpg
 from strong_typing.inspection import DataclassInstance, is_dataclass_type
@@ -28,16 +28,18 @@ class PostgreSQLConnection(BaseConnection):
         LOGGER.info("connecting to %s", self.params)
 
         ssl_mode = self.params.ssl
-        if ssl_mode is None or ssl_mode is ConnectionSSLMode.disable:
+        if ssl_mode is None:
             return await self._open()
+        elif ssl_mode is ConnectionSSLMode.disable:
+            return await self._open(False)
         elif ssl_mode is ConnectionSSLMode.prefer:
             try:
                 return await self._open(create_context(ssl_mode))
             except ConnectionError:
-                return await self._open()
+                return await self._open(False)
         elif ssl_mode is ConnectionSSLMode.allow:
             try:
-                return await self._open()
+                return await self._open(False)
             except ConnectionError:
                 return await self._open(create_context(ssl_mode))
         elif (
@@ -49,7 +51,10 @@ class PostgreSQLConnection(BaseConnection):
         else:
             raise ValueError(f"unsupported SSL mode: {ssl_mode}")
 
-    async def _open(self, ctx: Optional[ssl.SSLContext] = None) -> BaseContext:
+    async def _open(
+        self, ctx: Union[ssl.SSLContext, bool, None] = None
+    ) -> BaseContext:
+        # `None` lets the driver choose (i.e. try SSL first), `False` disables SSL
         conn = await asyncpg.connect(
             host=self.params.host,
             port=self.params.port,
-- 
2.43.0


From 57fa40b5dfb1dc2930f0684282391a3b6a91d7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 04/85] fix: fall back to the other kind of PostgreSQL
 connection when the server declines the first

A server that only accepts SSL rejects a plain connection with 'no pg_hba.conf
entry', and a failed handshake is an SSLError; neither is a ConnectionError, so
modes allow and prefer failed without trying the alternative.
---
 pysqlsync/dialect/postgresql/connection.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index 02f2c30..b47f64c 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -19,6 +19,14 @@ T = TypeVar("T")
 
 LOGGER = logging.getLogger("pysqlsync.postgres")
 
+# errors by which a server declines an encrypted or an unencrypted connection: it rejects the SSL upgrade,
+# the SSL handshake fails, or there is no matching entry in `pg_hba.conf`
+REFUSED_TRANSPORT_ERRORS = (
+    ConnectionError,
+    ssl.SSLError,
+    asyncpg.InvalidAuthorizationSpecificationError,
+)
+
 
 class PostgreSQLConnection(BaseConnection):
     native: asyncpg.Connection
@@ -35,12 +43,12 @@ class PostgreSQLConnection(BaseConnection):
         elif ssl_mode is ConnectionSSLMode.prefer:
             try:
                 return await self._open(create_context(ssl_mode))
-            except ConnectionError:
+            except REFUSED_TRANSPORT_ERRORS:
                 return await self._open(False)
         elif ssl_mode is ConnectionSSLMode.allow:
             try:
                 return await self._open(False)
-            except ConnectionError:
+            except REFUSED_TRANSPORT_ERRORS:
                 return await self._open(create_context(ssl_mode))
         elif (
             ssl_mode is ConnectionSSLMode.require
-- 
2.43.0


From 0eee994b87f8815088319eab6637e4fe118f7fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 05/85] fix: read past empty lines in tab-separated files

An empty line is the record of an empty string in a single-column file; it was
taken for the end of the file and all following records were lost.
---
 pysqlsync/data/exchange.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pysqlsync/data/exchange.py b/pysqlsync/data/exchange.py
index f20925c..eba2b7b 100644
--- a/pysqlsync/data/exchange.py
+++ b/pysqlsync/data/exchange.py
@@ -134,20 +134,20 @@ class TextReader:
 
         rows: list[tuple] = []
         while True:
-            line = self.stream.readline().rstrip(b"\n")
+            line = self.stream.readline()
             if not line:
                 break
-            rows.append(self.parser.parse_line(line))
+            rows.append(self.parser.parse_line(line.rstrip(b"\n")))
         return rows
 
     def records(self) -> Iterable[tuple]:
         "An iterator to records in a file-like object."
 
         while True:
-            line = self.stream.readline().rstrip(b"\n")
+            line = self.stream.readline()
             if not line:
                 break
-            yield self.parser.parse_line(line)
+            yield self.parser.parse_line(line.rstrip(b"\n"))
 
 
 class AsyncBinaryIO(Protocol):
@@ -191,10 +191,9 @@ class AsyncTextReader:
         rows: list[tuple] = []
         while True:
             line = await self.stream.readline()
-            record = line.rstrip(b"\n")
-            if not record:
+            if not line:
                 break
-            rows.append(self.parser.parse_line(record))
+            rows.append(self.parser.parse_line(line.rstrip(b"\n")))
         return rows
 
     async def records(self) -> AsyncIterator[tuple]:
@@ -202,7 +201,6 @@ class AsyncTextReader:
 
         while True:
             line = await self.stream.readline()
-            record = line.rstrip(b"\n")
-            if not record:
+            if not line:
                 break
-            yield self.parser.parse_line(record)
+            yield self.parser.parse_line(line.rstrip(b"\n"))
-- 
2.43.0


From e2cb72af522e44c3fac5830e7de051b314c20e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 06/85] fix: compare the values of lookup tables when comparing
 table descriptions

Descriptions of two lookup tables with the same name and different values were
taken for equal, and merging them silently dropped one of the two.
---
 pysqlsync/formation/object_types.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 429a648..e83a024 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -582,7 +582,14 @@ class Table(DatabaseObject, QualifiedObject):
         return [c for c in self.constraints.values() if c.is_alter_table()]
 
 
+@dataclass
 class EnumTable(Table):
+    """
+    A lookup table that stores enumeration values.
+
+    :param values: The values initially stored in the table.
+    """
+
     values: list[Any]
 
     def __init__(
-- 
2.43.0


From 5b73000e9f05026e927f1d43440d8c9bd75ce920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 07/85] fix: match columns to fields of a data class by name
 with Redshift

The driver returns plain sequences as rows; looking up attributes on them made
every query with a data class fail.
---
 pysqlsync/dialect/redshift/connection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 3277b0b..78bacdb 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -19,7 +19,7 @@ from pysqlsync.base import (
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 from pysqlsync.model.properties import is_identity_type
-from pysqlsync.resultset import resultset_unwrap_object, resultset_unwrap_tuple
+from pysqlsync.resultset import resultset_unwrap_dict, resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
 from pysqlsync.util.typing import override
 
@@ -97,7 +97,11 @@ class RedshiftContext(BaseContext):
             records = cursor.execute(statement).fetchall()
 
             if is_dataclass_type(signature):
-                return resultset_unwrap_object(signature, records)  # type: ignore
+                # rows are plain sequences, which have no attributes to refer to columns by name
+                names = [column[0] for column in cursor.description]
+                return resultset_unwrap_dict(
+                    signature, (dict(zip(names, record)) for record in records)
+                )  # type: ignore
             else:
                 return resultset_unwrap_tuple(signature, records)
 
-- 
2.43.0


From 8f89e63f90bb4ae13a1417a523e9d67316d4c393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 08/85] fix: keep the event loop running while a cancelled
 blocking call completes

---
 pysqlsync/util/dispatch.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/util/dispatch.py b/pysqlsync/util/dispatch.py
index e217308..e068786 100644
--- a/pysqlsync/util/dispatch.py
+++ b/pysqlsync/util/dispatch.py
@@ -23,8 +23,19 @@ def thread_dispatch(fn: Callable[P, R]) -> Callable[P, Coroutine[None, None, R]]
     async def invoke(*args: P.args, **kwargs: P.kwargs) -> R:
         loop = asyncio.get_running_loop()
         with ThreadPoolExecutor(max_workers=1) as pool:
-            return await loop.run_in_executor(
-                pool, functools.partial(fn, *args, **kwargs)
-            )
+            future = loop.run_in_executor(pool, functools.partial(fn, *args, **kwargs))
+            try:
+                return await asyncio.shield(future)
+            except asyncio.CancelledError:
+                # a running function cannot be interrupted; let other tasks run until it completes
+                # (instead of having the thread pool block the event loop on exit)
+                while not future.done():
+                    try:
+                        await asyncio.wait([future])
+                    except asyncio.CancelledError:
+                        pass
+                if not future.cancelled():
+                    future.exception()  # mark as retrieved
+                raise
 
     return invoke
-- 
2.43.0


From 042dc441ac93c31d6d23c4188bf2be86ed51fb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 09/85] fix: remove deleted constraints ahead of the columns
 they involve

---
 pysqlsync/formation/mutation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 35a5c75..6f13519 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -200,6 +200,13 @@ class Mutator:
         # accumulate object mutation statements
         alter_stmts: list[Optional[str]] = []
 
+        # remove deleted constraints ahead of the columns they involve
+        alter_stmts.extend(
+            f"DROP CONSTRAINT {constraint.name}"
+            for constraint in source.constraints.difference(target.constraints)
+            if constraint.is_alter_table()
+        )
+
         # migrate data when data type changes
         try:
             for source_column, target_column in migrated_columns:
@@ -233,12 +240,6 @@ class Mutator:
                 "failed to drop columns in table", target.name
             ) from e
 
-        alter_stmts.extend(
-            f"DROP CONSTRAINT {constraint.name}"
-            for constraint in source.constraints.difference(target.constraints)
-            if constraint.is_alter_table()
-        )
-
         # remove outdated constraints
         common_constraints = source.constraints.intersection(target.constraints)
         for source_constraint, target_constraint in common_constraints:
-- 
2.43.0


From 2c05d027071b4d419841aaa53963d70842eb1147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 10/85] fix: respect references between objects when dropping
 objects and when changing several namespaces

---
 pysqlsync/formation/mutation.py     | 217 +++++++++++++++++++++++-----
 pysqlsync/formation/object_types.py |  65 +++++++--
 2 files changed, 237 insertions(+), 45 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 6f13519..bc33266 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -1,5 +1,6 @@
+import itertools
 from dataclasses import dataclass
-from typing import Optional
+from typing import Optional, Union
 
 from ..model.data_types import (
     SqlEnumType,
@@ -16,6 +17,7 @@ from .object_types import (
     EnumType,
     FormationError,
     Namespace,
+    QualifiedObject,
     StatementList,
     StructType,
     Table,
@@ -262,47 +264,123 @@ class Mutator:
 
         return join_or_none(statements)
 
-    def mutate_namespace_stmt(
+    def get_required_objects(
+        self,
+        ns_mutate: list[tuple[Namespace, Namespace]],
+        ns_drop: list[Namespace],
+    ) -> set[str]:
+        """
+        Identifies objects that must not be dropped because objects that are to be kept depend on them.
+
+        :param ns_mutate: Namespaces that are both in the source and the target.
+        :param ns_drop: Namespaces that are missing from the target.
+        :returns: Quoted names of required types and tables.
+        """
+
+        # objects that are missing from the target, grouped by whether they may be dropped on their own
+        kept: list[Union[StructType, Table]] = []
+        groups: list[list[QualifiedObject]] = []
+
+        for source, target in ns_mutate:
+            for struct in source.structs.difference(target.structs):
+                if self.options.allow_drop_struct:
+                    groups.append([struct])
+                else:
+                    kept.append(struct)
+            for table in source.tables.difference(target.tables):
+                if self.options.allow_drop_table:
+                    groups.append([table])
+                else:
+                    kept.append(table)
+        for namespace in ns_drop:
+            if self.options.allow_drop_namespace:
+                groups.append(
+                    [
+                        *namespace.enums.values(),
+                        *namespace.structs.values(),
+                        *namespace.tables.values(),
+                    ]
+                )
+            else:
+                kept.extend(namespace.structs.values())
+                kept.extend(namespace.tables.values())
+
+        required: set[str] = set()
+        while kept:
+            for item in kept:
+                required.update(ref.quoted_id for ref in item.get_referenced_types())
+                if isinstance(item, Table):
+                    required.update(
+                        ref.quoted_id for ref in item.get_referenced_tables()
+                    )
+
+            kept = []
+            remaining: list[list[QualifiedObject]] = []
+            for group in groups:
+                if any(item.name.quoted_id in required for item in group):
+                    kept.extend(
+                        item for item in group if isinstance(item, (StructType, Table))
+                    )
+                else:
+                    remaining.append(group)
+            groups = remaining
+
+        return required
+
+    def create_namespace_objects_stmt(
         self, source: Namespace, target: Namespace
     ) -> Optional[str]:
-        self.check_identity(source, target)
+        "Creates objects that are missing from the source."
 
         statements: StatementList = StatementList()
 
-        # identify objects to create
-        enum_create = list(target.enums.difference(source.enums))
-        struct_create = list(target.structs.difference(source.structs))
         table_create = list(target.tables.difference(source.tables))
 
-        # identify objects to drop
-        enum_drop = list(source.enums.difference(target.enums))
-        struct_drop = list(source.structs.difference(target.structs))
-        table_drop = list(source.tables.difference(target.tables))
-        enum_soft_deleted: list[EnumType] = []
-
-        # create new objects
-        statements.extend(enum.create_stmt() for enum in enum_create)
-        statements.extend(struct.create_stmt() for struct in struct_create)
+        statements.extend(
+            enum.create_stmt() for enum in target.enums.difference(source.enums)
+        )
+        statements.extend(
+            struct.create_stmt() for struct in target.structs.difference(source.structs)
+        )
 
-        for enum_type in enum_drop:
+        for enum_type in source.enums.difference(target.enums):
             for table in table_create:
                 if enum_type.name != table.name:
                     continue
                 statements.append(enum_type.soft_drop_stmt())
-                enum_soft_deleted.append(enum_type)
 
         statements.extend(table.create_stmt() for table in table_create)
+
+        return join_or_none(statements)
+
+    def populate_namespace_objects_stmt(
+        self, source: Namespace, target: Namespace
+    ) -> Optional[str]:
+        "Adds constraints to and populates objects that are missing from the source."
+
+        statements: StatementList = StatementList()
+
+        table_create = list(target.tables.difference(source.tables))
+
         statements.extend(table.add_constraints_stmt() for table in table_create)
 
         # populate new objects with data
-        for enum_type in enum_drop:
+        for enum_type in source.enums.difference(target.enums):
             for table in table_create:
                 if enum_type.name != table.name:
                     continue
 
                 statements.append(self.migrate_enum_stmt(enum_type, table))
 
-        # mutate existing object
+        return join_or_none(statements)
+
+    def mutate_namespace_objects_stmt(
+        self, source: Namespace, target: Namespace
+    ) -> Optional[str]:
+        "Mutates objects that are both in the source and the target."
+
+        statements: StatementList = StatementList()
+
         enum_mutate = list(source.enums.intersection(target.enums))
         statements.extend(
             self.mutate_enum_stmt(source_enum, target_enum)
@@ -321,18 +399,41 @@ class Mutator:
             for source_table, target_table in table_mutate
         )
 
-        # drop old objects
+        return join_or_none(statements)
+
+    def drop_namespace_objects_stmt(
+        self, source: Namespace, target: Namespace, required: set[str]
+    ) -> Optional[str]:
+        "Drops objects that are missing from the target."
+
+        statements: StatementList = StatementList()
+
         if self.options.allow_drop_table:
-            statements.extend(table.drop_stmt() for table in table_drop)
+            statements.extend(
+                table.drop_stmt()
+                for table in source.tables.difference(target.tables)
+                if table.name.quoted_id not in required
+            )
 
         if self.options.allow_drop_struct:
-            statements.extend(struct.drop_stmt() for struct in struct_drop)
+            statements.extend(
+                struct.drop_stmt()
+                for struct in reversed(source.get_sorted_structs())
+                if struct.name.local_id not in target.structs
+                and struct.name.quoted_id not in required
+            )
 
         if self.options.allow_drop_enum:
-            for enum_type in enum_drop:
+            for enum_type in source.enums.difference(target.enums):
+                if enum_type.name.quoted_id in required:
+                    continue
+                enum_soft_deleted = any(
+                    enum_type.name == table.name
+                    for table in target.tables.difference(source.tables)
+                )
                 statements.append(
                     enum_type.hard_drop_stmt()
-                    if enum_type in enum_soft_deleted
+                    if enum_soft_deleted
                     else enum_type.drop_stmt()
                 )
 
@@ -348,28 +449,78 @@ class Mutator:
         ns_drop = list(source.namespaces.difference(target.namespaces))
         ns_mutate = list(source.namespaces.intersection(target.namespaces))
 
+        for source_ns, target_ns in ns_mutate:
+            self.check_identity(source_ns, target_ns)
+
         # create new namespaces
         statements.extend(namespace.create_schema_stmt() for namespace in ns_create)
 
-        # create objects in each namespace added
-        statements.extend(namespace.create_objects_stmt() for namespace in ns_create)
+        # create new objects in each namespace, following the order of references between namespaces
+        for name, target_ns in target.namespaces.items():
+            source_ns = source.namespaces.get(name)
+            statements.append(
+                self.create_namespace_objects_stmt(source_ns, target_ns)
+                if source_ns is not None
+                else target_ns.create_objects_stmt()
+            )
 
         # add new constraints
         statements.extend(namespace.add_constraints_stmt() for namespace in ns_create)
+        statements.extend(
+            self.populate_namespace_objects_stmt(source_ns, target_ns)
+            for source_ns, target_ns in ns_mutate
+        )
 
-        # mutate existing namespaces
+        # mutate existing objects
         statements.extend(
-            self.mutate_namespace_stmt(source_ns, target_ns)
+            self.mutate_namespace_objects_stmt(source_ns, target_ns)
             for source_ns, target_ns in ns_mutate
         )
 
+        # keep objects on which other objects depend that must not be dropped
+        required = self.get_required_objects(ns_mutate, ns_drop)
+        if self.options.allow_drop_namespace:
+            ns_drop = [
+                namespace
+                for namespace in ns_drop
+                if not any(
+                    item.name.quoted_id in required
+                    for item in itertools.chain(
+                        namespace.enums.values(),
+                        namespace.structs.values(),
+                        namespace.tables.values(),
+                    )
+                )
+            ]
+        else:
+            ns_drop = []
+
+        # remove references between tables to be dropped
+        if self.options.allow_drop_table:
+            for source_ns, target_ns in ns_mutate:
+                statements.extend(
+                    table.drop_references_stmt()
+                    for table in source_ns.tables.difference(target_ns.tables)
+                    if table.name.quoted_id not in required
+                )
+
         # remove old constraints
         statements.extend(namespace.drop_constraints_stmt() for namespace in ns_drop)
-        if self.options.allow_drop_namespace:
-            # drop objects in each namespace removed
-            statements.extend(namespace.drop_objects_stmt() for namespace in ns_drop)
 
-            # drop old namespaces
-            statements.extend(namespace.drop_schema_stmt() for namespace in ns_drop)
+        # drop old objects
+        statements.extend(
+            self.drop_namespace_objects_stmt(source_ns, target_ns, required)
+            for source_ns, target_ns in reversed(ns_mutate)
+        )
+
+        # drop objects in each namespace removed
+        statements.extend(
+            namespace.drop_objects_stmt() for namespace in reversed(ns_drop)
+        )
+
+        # drop old namespaces
+        statements.extend(
+            namespace.drop_schema_stmt() for namespace in reversed(ns_drop)
+        )
 
         return join_or_none(statements)
diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index e83a024..3195130 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -6,7 +6,12 @@ from typing import Any, Iterable, Optional, overload
 from strong_typing.inspection import is_dataclass_instance
 from strong_typing.topological import topological_sort
 
-from ..model.data_types import SqlDataType, SqlUserDefinedType, constant
+from ..model.data_types import (
+    SqlArrayType,
+    SqlDataType,
+    SqlUserDefinedType,
+    constant,
+)
 from ..model.id_types import LocalId, SupportsQualifiedId
 from .object_dict import ObjectDict
 
@@ -38,6 +43,20 @@ def join_or_none(statements: Iterable[Optional[str]]) -> Optional[str]:
     return join(statements) or None
 
 
+def get_referenced_types(
+    data_types: Iterable[SqlDataType],
+) -> set[SupportsQualifiedId]:
+    "User-defined types that data types refer to, possibly as the element type of an array."
+
+    items: set[SupportsQualifiedId] = set()
+    for data_type in data_types:
+        while isinstance(data_type, SqlArrayType):
+            data_type = data_type.element_type
+        if isinstance(data_type, SqlUserDefinedType):
+            items.add(data_type.ref)
+    return items
+
+
 class MappingError(RuntimeError):
     "Raised when a Python class cannot map to a database entity."
 
@@ -162,11 +181,7 @@ class StructType(DatabaseObject, QualifiedObject):
         self.description = description
 
     def get_referenced_types(self) -> set[SupportsQualifiedId]:
-        return set(
-            m.data_type.ref
-            for m in self.members.values()
-            if isinstance(m.data_type, SqlUserDefinedType)
-        )
+        return get_referenced_types(m.data_type for m in self.members.values())
 
     def create_stmt(self) -> str:
         members = ",\n".join(str(m) for m in self.members.values())
@@ -522,11 +537,7 @@ class Table(DatabaseObject, QualifiedObject):
         raise KeyError(f"foreign constraint not found for column: {column_id}")
 
     def get_referenced_types(self) -> set[SupportsQualifiedId]:
-        return set(
-            c.data_type.ref
-            for c in self.columns.values()
-            if isinstance(c.data_type, SqlUserDefinedType)
-        )
+        return get_referenced_types(c.data_type for c in self.columns.values())
 
     def get_referenced_tables(self) -> set[SupportsQualifiedId]:
         items: set[SupportsQualifiedId] = set()
@@ -577,6 +588,22 @@ class Table(DatabaseObject, QualifiedObject):
         else:
             return None
 
+    def drop_references_stmt(self) -> Optional[str]:
+        "Removes foreign key constraints that refer to another table."
+
+        constraints = [
+            c
+            for c in self.constraints.values()
+            if isinstance(c, ForeignConstraint)
+            and c.reference.table.quoted_id != self.name.quoted_id
+        ]
+        if constraints:
+            return self.alter_table_stmt(
+                [f"DROP CONSTRAINT {c.name}" for c in constraints]
+            )
+        else:
+            return None
+
     @property
     def table_constraints(self) -> list[Constraint]:
         return [c for c in self.constraints.values() if c.is_alter_table()]
@@ -686,6 +713,20 @@ class Namespace(DatabaseObject):
     def __bool__(self) -> bool:
         return len(self.enums) > 0 or len(self.structs) > 0 or len(self.tables) > 0
 
+    def get_sorted_structs(self) -> list[StructType]:
+        "Composite types, each after the composite types that it refers to."
+
+        structs = {struct.name.quoted_id: struct for struct in self.structs.values()}
+        graph = {
+            name: set(
+                ref.quoted_id
+                for ref in struct.get_referenced_types()
+                if ref.quoted_id in structs
+            )
+            for name, struct in structs.items()
+        }
+        return [structs[name] for name in topological_sort(graph)]
+
     def get_referenced_namespaces(self) -> set[LocalId]:
         items: set[SupportsQualifiedId] = set()
         for s in self.structs.values():
@@ -723,7 +764,7 @@ class Namespace(DatabaseObject):
     def drop_objects_stmt(self) -> Optional[str]:
         items: list[str] = []
         items.extend(t.drop_stmt() for t in reversed(list(self.tables.values())))
-        items.extend(s.drop_stmt() for s in reversed(list(self.structs.values())))
+        items.extend(s.drop_stmt() for s in reversed(self.get_sorted_structs()))
         items.extend(e.drop_stmt() for e in reversed(list(self.enums.values())))
         return join_or_none(items)
 
-- 
2.43.0


From 2a3bb8d9889203c5b95aeb1262ea252ec32867a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:34 +0000
Subject: [PATCH 11/85] fix: recognize default values of PostgreSQL columns
 that the server reports with a type cast

---
 pysqlsync/dialect/postgresql/discovery.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 17a7481..e95e419 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -44,8 +44,26 @@ def to_default_expr(expr: Optional[str]) -> Optional[str]:
             tzinfo=None,
         )
         return quote(timestamp.isoformat(sep=" "))
-    else:
-        return expr
+
+    # literal with a type cast, e.g. 'text'::character varying or '-1'::integer
+    m = re.match(r"^(?P<literal>'(?:[^']|'')*')::(?P<type>.+)$", expr, re.DOTALL)
+    if m:
+        if m.group("type") in [
+            "smallint",
+            "integer",
+            "bigint",
+            "numeric",
+            "real",
+            "double precision",
+        ]:
+            return m.group("literal")[1:-1]
+        else:
+            return m.group("literal")
+
+    if expr in ["true", "false"]:
+        return expr.upper()
+
+    return expr
 
 
 @dataclass
-- 
2.43.0


From f6a6e20bbe33b351e0cfd0937779ca90265b73e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:34 +0000
Subject: [PATCH 12/85] fix: unquote enumeration values on discovery

---
 pysqlsync/formation/data_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index e5abc76..aae34e5 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -134,7 +134,8 @@ class SqlDiscovery:
         if m is not None:
             value_list = m.group(1)
             values = [
-                value for value in re.findall(r"'((?:[^']+|'')*)'(?:,|$)", value_list)
+                value.replace("''", "'")
+                for value in re.findall(r"'((?:[^']+|'')*)'(?:,|$)", value_list)
             ]
             return SqlEnumType(values)
 
-- 
2.43.0


From 05953e32e97c9af060a818d203ece6ad98108646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:34 +0000
Subject: [PATCH 13/85] fix: recognize default values of MySQL columns

---
 pysqlsync/dialect/mysql/discovery.py    | 27 ++++++++++++++++++++++++-
 pysqlsync/dialect/mysql/mutation.py     |  2 +-
 pysqlsync/dialect/mysql/object_types.py | 11 ++++++++++
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mysql/discovery.py b/pysqlsync/dialect/mysql/discovery.py
index 44dca53..4ec3da9 100644
--- a/pysqlsync/dialect/mysql/discovery.py
+++ b/pysqlsync/dialect/mysql/discovery.py
@@ -29,6 +29,31 @@ class MySQLColumnMeta(AnsiColumnMeta):
     column_comment: str
 
 
+def to_default_expr(col: MySQLColumnMeta) -> Optional[str]:
+    "Converts the default value of a MySQL column into a SQL expression."
+
+    if col.column_default is None:
+        return None
+
+    # MySQL reports literals without quotes
+    if "DEFAULT_GENERATED" not in col.extra and col.data_type in [
+        "char",
+        "varchar",
+        "tinytext",
+        "text",
+        "mediumtext",
+        "longtext",
+        "enum",
+        "date",
+        "time",
+        "datetime",
+        "timestamp",
+    ]:
+        return quote(col.column_default)
+
+    return col.column_default
+
+
 class MySQLExplorer(AnsiExplorer):
     def __init__(self, conn: BaseContext) -> None:
         super().__init__(
@@ -100,7 +125,7 @@ class MySQLExplorer(AnsiExplorer):
                         datetime_precision=col.datetime_precision,
                     ),
                     bool(col.nullable),
-                    default=col.column_default,
+                    default=to_default_expr(col),
                     identity="auto_increment" in col.extra,
                     description=col.column_comment or None,
                 )
diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index e199c5d..c0ee8e9 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -75,7 +75,7 @@ class MySQLMutator(Mutator):
         if (
             source.data_type != target.data_type
             or source.nullable != target.nullable
-            or source.default != target.default
+            or source.default_expr != target.default_expr
             or source.identity != target.identity
             or source.comment != target.comment
         ):
diff --git a/pysqlsync/dialect/mysql/object_types.py b/pysqlsync/dialect/mysql/object_types.py
index c73b678..5000bc5 100644
--- a/pysqlsync/dialect/mysql/object_types.py
+++ b/pysqlsync/dialect/mysql/object_types.py
@@ -59,6 +59,17 @@ class MySQLColumn(Column):
         description = f" COMMENT {self.comment}" if self.description is not None else ""
         return f"{self.data_type}{charset}{nullable}{default}{identity}{description}"
 
+    @property
+    def default_expr(self) -> Optional[str]:
+        "Default value as the database engine stores it, which has no Boolean type."
+
+        if self.default == "TRUE":
+            return "1"
+        elif self.default == "FALSE":
+            return "0"
+        else:
+            return self.default
+
     @property
     def comment(self) -> Optional[str]:
         if self.description is not None:
-- 
2.43.0


From 3ee4c638b9ca4930f9593540fceb359712dd0de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 14/85] fix: write and recognize default values, floating-point
 and timestamp types of SQL Server columns

---
 pysqlsync/dialect/mssql/data_types.py   |  8 ++++++-
 pysqlsync/dialect/mssql/discovery.py    | 29 +++++++++++++++++++++++--
 pysqlsync/dialect/mssql/mutation.py     |  4 ++--
 pysqlsync/dialect/mssql/object_types.py | 13 ++++++++++-
 4 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/dialect/mssql/data_types.py b/pysqlsync/dialect/mssql/data_types.py
index ee259e2..172fc35 100644
--- a/pysqlsync/dialect/mssql/data_types.py
+++ b/pysqlsync/dialect/mssql/data_types.py
@@ -1,7 +1,8 @@
 import enum
-from typing import Optional
+from typing import Any, Optional
 
 import pyodbc
+from strong_typing.auxiliary import TimePrecision
 
 from pysqlsync.model.data_types import (
     SqlBooleanType,
@@ -59,6 +60,11 @@ class MSSQLDateTimeType(SqlTimestampType):
     def __str__(self) -> str:
         return "datetime2"
 
+    def parse_meta(self, meta: Any) -> None:
+        # columns are always created with maximum precision
+        if not isinstance(meta, TimePrecision):
+            super().parse_meta(meta)
+
 
 def sql_to_odbc_type(data_type: SqlDataType) -> tuple[int, int, int]:
     """
diff --git a/pysqlsync/dialect/mssql/discovery.py b/pysqlsync/dialect/mssql/discovery.py
index f52484d..4230357 100644
--- a/pysqlsync/dialect/mssql/discovery.py
+++ b/pysqlsync/dialect/mssql/discovery.py
@@ -1,10 +1,11 @@
+import re
 from typing import Optional
 
 from pysqlsync.base import BaseContext
 from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
 from pysqlsync.formation.discovery import AnsiExplorer
 from pysqlsync.formation.object_types import Column, Namespace, Table
-from pysqlsync.model.data_types import quote
+from pysqlsync.model.data_types import SqlDoubleType, quote
 from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 
 from .data_types import (
@@ -16,6 +17,29 @@ from .data_types import (
 from .object_types import MSSQLObjectFactory
 
 
+def to_default_expr(expr: str) -> str:
+    "Removes parentheses that enclose the default value of a column as reported by Microsoft SQL Server."
+
+    while expr.startswith("("):
+        # find the parenthesis that closes the first one, skipping string literals
+        depth = 0
+        end = 0
+        for m in re.finditer(r"'(?:[^']|'')*'|[()]", expr):
+            if m.group() == "(":
+                depth += 1
+            elif m.group() == ")":
+                depth -= 1
+                if depth == 0:
+                    end = m.end()
+                    break
+
+        if end != len(expr):
+            break
+        expr = expr[1:-1]
+
+    return expr
+
+
 class MSSQLExplorer(AnsiExplorer):
     def __init__(self, conn: BaseContext) -> None:
         super().__init__(
@@ -26,6 +50,7 @@ class MSSQLExplorer(AnsiExplorer):
                         "bit": MSSQLBooleanType(),
                         "datetime": MSSQLDateTimeType(),
                         "datetime2": MSSQLDateTimeType(),
+                        "float": SqlDoubleType(),
                         "nvarchar": MSSQLVariableCharacterType(
                             encoding=MSSQLEncoding.UTF16
                         ),
@@ -61,7 +86,7 @@ class MSSQLExplorer(AnsiExplorer):
             if c.name.id in identity_columns:
                 c.identity = True
             if c.name.id in default_values:
-                c.default = default_values[c.name.id]
+                c.default = to_default_expr(default_values[c.name.id])
 
         return columns
 
diff --git a/pysqlsync/dialect/mssql/mutation.py b/pysqlsync/dialect/mssql/mutation.py
index 5f49fe8..c780650 100644
--- a/pysqlsync/dialect/mssql/mutation.py
+++ b/pysqlsync/dialect/mssql/mutation.py
@@ -33,8 +33,8 @@ class MSSQLMutator(Mutator):
         constraints: list[str] = []
         common_columns = source.columns.intersection(target.columns)
         for source_column, target_column in common_columns:
-            source_def = source_column.default
-            target_def = target_column.default
+            source_def = typing.cast(MSSQLColumn, source_column).default_expr
+            target_def = typing.cast(MSSQLColumn, target_column).default_expr
 
             if source_def == target_def:
                 continue
diff --git a/pysqlsync/dialect/mssql/object_types.py b/pysqlsync/dialect/mssql/object_types.py
index 45f3aff..8744bff 100644
--- a/pysqlsync/dialect/mssql/object_types.py
+++ b/pysqlsync/dialect/mssql/object_types.py
@@ -19,12 +19,23 @@ class MSSQLColumn(Column):
 
         return LocalId(f"df_{self.name.local_id}")
 
+    @property
+    def default_expr(self) -> Optional[str]:
+        "Default value as a Microsoft SQL Server expression, which has no Boolean literals."
+
+        if self.default == "TRUE":
+            return "1"
+        elif self.default == "FALSE":
+            return "0"
+        else:
+            return self.default
+
     @property
     def data_spec(self) -> str:
         nullable = " NOT NULL" if not self.nullable else ""
         name = self.default_constraint_name()
         default = (
-            f" CONSTRAINT {name} DEFAULT {self.default}"
+            f" CONSTRAINT {name} DEFAULT {self.default_expr}"
             if self.default is not None
             else ""
         )
-- 
2.43.0


From 99ede79f7eac659cfa1f1fef592210379df769b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 15/85] fix: report errors of all statements in a script with
 SQL Server

---
 pysqlsync/dialect/mssql/connection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysqlsync/dialect/mssql/connection.py b/pysqlsync/dialect/mssql/connection.py
index 1639471..0cbbbb2 100644
--- a/pysqlsync/dialect/mssql/connection.py
+++ b/pysqlsync/dialect/mssql/connection.py
@@ -78,6 +78,10 @@ class MSSQLContext(BaseContext):
         with self.native_connection.cursor() as cur:
             cur.execute(statement)
 
+            # errors of later statements in a script are reported when moving on to their results
+            while cur.nextset():
+                pass
+
     @override
     async def _execute_all(self, statement: str, source: DataSource) -> None:
         async for batch in source.batches():
-- 
2.43.0


From e37cfe698087a3490e4bf2f40d521813145edaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 16/85] fix: map unsigned integers to a type that Oracle
 recognizes

---
 pysqlsync/dialect/oracle/generator.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/oracle/generator.py b/pysqlsync/dialect/oracle/generator.py
index 9a16b89..cfa03d9 100644
--- a/pysqlsync/dialect/oracle/generator.py
+++ b/pysqlsync/dialect/oracle/generator.py
@@ -3,7 +3,16 @@ import ipaddress
 import uuid
 from typing import Any, Callable, Optional
 
-from strong_typing.auxiliary import int8, int16, int32, int64
+from strong_typing.auxiliary import (
+    int8,
+    int16,
+    int32,
+    int64,
+    uint8,
+    uint16,
+    uint32,
+    uint64,
+)
 from strong_typing.core import JsonType
 
 from pysqlsync.base import BaseGenerator, GeneratorOptions
@@ -65,6 +74,10 @@ class OracleGenerator(BaseGenerator):
                     int16: OracleIntegerType(),
                     int32: OracleIntegerType(),
                     int64: OracleIntegerType(),
+                    uint8: OracleIntegerType(),
+                    uint16: OracleIntegerType(),
+                    uint32: OracleIntegerType(),
+                    uint64: OracleIntegerType(),
                     str: OracleVariableCharacterType(),
                     uuid.UUID: OracleVariableBinaryType(16),
                     JsonType: OracleVariableCharacterType(),
-- 
2.43.0


From ac70b6c0b35be0d3118a8693ab43b838c3b9be3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 17/85] fix: recognize fixed-point, floating-point and
 timestamp types of Oracle columns

---
 pysqlsync/dialect/oracle/data_types.py |  9 ++++++
 pysqlsync/dialect/oracle/discovery.py  | 38 ++++++++++++++++++++++++--
 2 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/oracle/data_types.py b/pysqlsync/dialect/oracle/data_types.py
index edf671e..b40892c 100644
--- a/pysqlsync/dialect/oracle/data_types.py
+++ b/pysqlsync/dialect/oracle/data_types.py
@@ -25,6 +25,15 @@ class OracleIntegerType(SqlIntegerType):
 
 
 class OracleTimestampType(SqlTimestampType):
+    def __eq__(self, other: object) -> bool:
+        "Compares types, taking into account the default precision."
+
+        return (
+            isinstance(other, OracleTimestampType)
+            and str(self) == str(other)
+            and self.with_time_zone == other.with_time_zone
+        )
+
     def __str__(self) -> str:
         if self.precision is not None and self.precision != 6:
             precision = f"({self.precision})"
diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index 3a7b8a4..7ad5f87 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -7,7 +7,14 @@ from pysqlsync.base import BaseContext, Explorer
 from pysqlsync.formation.constraints import ForeignFactory, UniqueFactory
 from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
 from pysqlsync.formation.object_types import Column, Constraint, Namespace, Table
-from pysqlsync.model.data_types import escape_like, quote
+from pysqlsync.model.data_types import (
+    SqlDecimalType,
+    SqlDoubleType,
+    SqlFloatType,
+    SqlRealType,
+    escape_like,
+    quote,
+)
 from pysqlsync.model.id_types import (
     LocalId,
     PrefixedId,
@@ -51,6 +58,16 @@ class OracleConstraintMeta:
     target_column: str
 
 
+def to_default_expr(expr: Optional[str]) -> Optional[str]:
+    "Normalizes an expression as written in the statement that has created the column."
+
+    if expr is None:
+        return None
+
+    expr = expr.strip()
+    return expr if expr.upper() != "NULL" else None
+
+
 class OracleExplorer(Explorer):
     discovery: SqlDiscovery
     factory: OracleObjectFactory
@@ -148,6 +165,21 @@ class OracleExplorer(Explorer):
                 numeric_precision=col.data_precision,
                 numeric_scale=col.data_scale,
             )
+            if col.data_type == "NUMBER" and col.data_scale is not None:
+                # fixed-point types other than `number`
+                if col.data_precision is not None:
+                    data_type = SqlDecimalType(col.data_precision, col.data_scale)
+                else:
+                    data_type = SqlDecimalType()
+            elif isinstance(data_type, SqlFloatType):
+                # engine has a single floating-point type
+                if col.data_precision == 63:
+                    data_type = SqlRealType()
+                elif col.data_precision == 126:
+                    data_type = SqlDoubleType()
+            elif isinstance(data_type, OracleTimestampType):
+                data_type.precision = col.data_scale
+
             nullable = bool(col.is_nullable)
             identity = bool(col.is_identity)
             columns.append(
@@ -156,7 +188,9 @@ class OracleExplorer(Explorer):
                     data_type,
                     nullable,
                     identity=identity,
-                    default=col.data_default if not identity else None,
+                    default=(
+                        to_default_expr(col.data_default) if not identity else None
+                    ),
                     description=col.comments,
                 )
             )
-- 
2.43.0


From 7cc4090c2f2e449e4b3576ee7dd0d6cd1e5dfa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 18/85] fix: do not alter MySQL columns of type real, which the
 server reports as double precision

---
 pysqlsync/dialect/mysql/mutation.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index c0ee8e9..fcf33d4 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -9,7 +9,13 @@ from pysqlsync.formation.object_types import (
     deleted,
     join_or_none,
 )
-from pysqlsync.model.data_types import SqlEnumType, SqlVariableCharacterType, quote
+from pysqlsync.model.data_types import (
+    SqlDoubleType,
+    SqlEnumType,
+    SqlRealType,
+    SqlVariableCharacterType,
+    quote,
+)
 from pysqlsync.model.id_types import LocalId
 
 from .object_types import MySQLColumn, MySQLTable
@@ -72,8 +78,14 @@ class MySQLMutator(Mutator):
         source = typing.cast(MySQLColumn, source_column)
         target = typing.cast(MySQLColumn, target_column)
 
+        # database engine stores `real` as `double precision`
+        same_type = source.data_type == target.data_type or (
+            isinstance(source.data_type, SqlDoubleType)
+            and isinstance(target.data_type, SqlRealType)
+        )
+
         if (
-            source.data_type != target.data_type
+            not same_type
             or source.nullable != target.nullable
             or source.default_expr != target.default_expr
             or source.identity != target.identity
-- 
2.43.0


From b9ea5061d4e87ef1164fba84b368d14d326239e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 19/85] fix: accept lists and sets of entities that are
 declared later

---
 pysqlsync/formation/py_to_sql.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index ef3a4e0..e811a2e 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -492,7 +492,7 @@ class DataclassConverter:
         return self.simple_type_to_sql_data_type(int32)
 
     def _get_relationship(
-        self, field_type: TypeLike
+        self, field_type: TypeLike, cls: type
     ) -> Optional[tuple[type, TypeLike]]:
         """
         Returns relationship type and field type if the field expands into a separate relation (join table).
@@ -512,6 +512,7 @@ class DataclassConverter:
         3. a foreign key to the lookup table with all possible enumeration values
 
         :param field_type: A type to check.
+        :param cls: The context for the type, typically the dataclass in which the member is defined.
         :returns: A tuple of host relationship type (e.g. list) and host field type.
         """
 
@@ -532,6 +533,7 @@ class DataclassConverter:
         else:
             return None
 
+        elem_type = evaluate_member_type(elem_type, cls)
         if self.options.array_mode is ArrayMode.RELATION or is_entity_type(elem_type):
             return relation_type, elem_type
         else:
@@ -744,7 +746,7 @@ class DataclassConverter:
             columns = [
                 self.member_to_column(field, cls, doc)
                 for field in dataclass_fields(cls)
-                if self._get_relationship(field.type) is None
+                if self._get_relationship(field.type, cls) is None
             ]
         except TypeError as e:
             raise TypeError(f"error processing data-class: {cls}") from e
@@ -1085,7 +1087,7 @@ class DataclassConverter:
         # create join tables for many-to-many relationships
         for entity in table_types:
             for field in dataclass_fields(entity):
-                relationship = self._get_relationship(field.type)
+                relationship = self._get_relationship(field.type, entity)
                 if relationship is None:
                     continue
 
-- 
2.43.0


From 4115179c08535b7e05b92d0b85a74fb60836881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 20/85] fix: create enumerations and structures of modules that
 define no tables

---
 pysqlsync/formation/py_to_sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index e811a2e..bb83ea2 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -1186,9 +1186,9 @@ class DataclassConverter:
                     name=LocalId(self.options.namespaces.get(module_name) or ""),
                     enums=enums.get(module_name, []),
                     structs=structs.get(module_name, []),
-                    tables=table_defs,
+                    tables=tables.get(module_name, []),
                 )
-                for module_name, table_defs in tables.items()
+                for module_name in dict.fromkeys([*tables, *structs, *enums])
             ]
         else:
             namespaces = [
-- 
2.43.0


From 92d6b45f926070a556ec4ce03dedb649b9f64195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 21/85] fix: create types for enumerations with a single
 member, and no types for extensible enumerations

---
 pysqlsync/formation/py_to_sql.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index bb83ea2..f2a350d 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -1008,6 +1008,17 @@ class DataclassConverter:
             for ref_type in get_referenced_types(entity_type):
                 referenced_types.add(ref_type)
 
+        # discover extensible enumerations, which expand into tables
+        extensible_enum_types: set[type[enum.Enum]] = set()
+        for entity in referenced_types:
+            if not is_entity_type(entity):
+                continue
+            for enum_field in dataclass_fields_as_required(
+                entity, lambda t: is_extensible_enum_type(t, entity)
+            ):
+                enum_type = unwrap_extensible_enum_type(enum_field.type, entity)
+                extensible_enum_types.add(enum_type)
+
         # collect all enumeration types in alphabetical order
         enums: dict[str, list[EnumType]] = {}
         if self.options.enum_mode is EnumMode.TYPE:
@@ -1015,8 +1026,8 @@ class DataclassConverter:
             enum_types.sort(key=lambda e: e.__name__)
             for enum_type in enum_types:
                 enum_values = [str(e.value) for e in enum_type]  # type: ignore
-                if len(enum_values) < 2:
-                    # enumerations with too few members expand into extensible enumeration tables
+                if not enum_values or enum_type in extensible_enum_types:
+                    # extensible enumerations expand into tables
                     continue
 
                 enum_defs = enums.setdefault(enum_type.__module__, [])
@@ -1072,14 +1083,7 @@ class DataclassConverter:
             table_defs = tables.setdefault(enum_type.__module__, [])
             table_defs.append(self._enum_table(enum_type))
 
-        # discover extensible enumerations
-        extensible_enum_types: set[type[enum.Enum]] = set()
-        for entity in table_types:
-            for enum_field in dataclass_fields_as_required(
-                entity, lambda t: is_extensible_enum_type(t, entity)
-            ):
-                enum_type = unwrap_extensible_enum_type(enum_field.type, entity)
-                extensible_enum_types.add(enum_type)
+        # create tables for extensible enumerations
         for enum_type in sorted(list(extensible_enum_types), key=lambda e: e.__name__):
             table_defs = tables.setdefault(enum_type.__module__, [])
             table_defs.append(self._enum_table(enum_type))
-- 
2.43.0


From aabde0f521436ef9c10629e478f11da23e540e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 22/85] fix: write default values of enumeration type

---
 pysqlsync/formation/py_to_sql.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index f2a350d..32826b3 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -663,6 +663,21 @@ class DataclassConverter:
 
         raise TypeError(f"unsupported data type: {typ}")
 
+    def _default_expr(self, value: Any) -> str:
+        "Default value of a column as a SQL expression."
+
+        if isinstance(value, enum.Enum):
+            if self.options.enum_mode is EnumMode.RELATION:
+                raise TypeError(
+                    f"default value not supported for an enumeration whose values are stored in a separate table: {value}"
+                )
+            elif self.options.enum_mode is EnumMode.CHECK:
+                return constant(value.value)
+            else:
+                return constant(str(value.value))
+
+        return constant(value)
+
     def member_to_column(
         self, field: DataclassField, cls: type[DataclassInstance], doc: Docstring
     ) -> Column:
@@ -672,7 +687,7 @@ class DataclassConverter:
         data_type = self.member_to_sql_data_type(props.field_type, cls)
 
         if field.default is not dataclasses.MISSING and field.default is not None:
-            default_value = constant(field.default)
+            default_value = self._default_expr(field.default)
         elif (
             self.options.auto_default
             and not props.nullable
-- 
2.43.0


From 5a80fcb93f94b2ffd9705df86c00eaf2e49cb30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 23/85] fix: recognize time columns of SQL Server as of maximum
 precision

---
 pysqlsync/dialect/mssql/data_types.py | 9 +++++++++
 pysqlsync/dialect/mssql/discovery.py  | 2 ++
 pysqlsync/dialect/mssql/generator.py  | 8 +++++++-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mssql/data_types.py b/pysqlsync/dialect/mssql/data_types.py
index 172fc35..6b2771c 100644
--- a/pysqlsync/dialect/mssql/data_types.py
+++ b/pysqlsync/dialect/mssql/data_types.py
@@ -66,6 +66,15 @@ class MSSQLDateTimeType(SqlTimestampType):
             super().parse_meta(meta)
 
 
+class MSSQLTimeType(SqlTimeType):
+    def __init__(self, precision: Optional[int] = None) -> None:
+        # maximum precision is the default
+        super().__init__(precision if precision is not None else 7)
+
+    def __str__(self) -> str:
+        return "time" if self.precision == 7 else super().__str__()
+
+
 def sql_to_odbc_type(data_type: SqlDataType) -> tuple[int, int, int]:
     """
     Returns the ODBC data type associated with the SQL data type.
diff --git a/pysqlsync/dialect/mssql/discovery.py b/pysqlsync/dialect/mssql/discovery.py
index 4230357..8d43b71 100644
--- a/pysqlsync/dialect/mssql/discovery.py
+++ b/pysqlsync/dialect/mssql/discovery.py
@@ -12,6 +12,7 @@ from .data_types import (
     MSSQLBooleanType,
     MSSQLDateTimeType,
     MSSQLEncoding,
+    MSSQLTimeType,
     MSSQLVariableCharacterType,
 )
 from .object_types import MSSQLObjectFactory
@@ -51,6 +52,7 @@ class MSSQLExplorer(AnsiExplorer):
                         "datetime": MSSQLDateTimeType(),
                         "datetime2": MSSQLDateTimeType(),
                         "float": SqlDoubleType(),
+                        "time": MSSQLTimeType(),
                         "nvarchar": MSSQLVariableCharacterType(
                             encoding=MSSQLEncoding.UTF16
                         ),
diff --git a/pysqlsync/dialect/mssql/generator.py b/pysqlsync/dialect/mssql/generator.py
index bde52b6..5fefa1c 100644
--- a/pysqlsync/dialect/mssql/generator.py
+++ b/pysqlsync/dialect/mssql/generator.py
@@ -19,7 +19,12 @@ from pysqlsync.formation.py_to_sql import (
 from pysqlsync.model.data_types import SqlFixedBinaryType
 from pysqlsync.util.typing import override
 
-from .data_types import MSSQLBooleanType, MSSQLDateTimeType, MSSQLVariableCharacterType
+from .data_types import (
+    MSSQLBooleanType,
+    MSSQLDateTimeType,
+    MSSQLTimeType,
+    MSSQLVariableCharacterType,
+)
 from .mutation import MSSQLMutator
 from .object_types import MSSQLObjectFactory
 
@@ -51,6 +56,7 @@ class MSSQLGenerator(BaseGenerator):
                 substitutions={
                     bool: MSSQLBooleanType(),
                     datetime.datetime: MSSQLDateTimeType(),
+                    datetime.time: MSSQLTimeType(),
                     str: MSSQLVariableCharacterType(),
                     uuid.UUID: SqlFixedBinaryType(16),
                     JsonType: MSSQLVariableCharacterType(),
-- 
2.43.0


From c065cee1a0fd7bd8818ecf62fba860fcb9991741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:10 +0000
Subject: [PATCH 24/85] fix: discover the current schema of PostgreSQL and SQL
 Server without a name, as it is in the desired state

---
 pysqlsync/dialect/postgresql/discovery.py | 77 +++++++++++++++++++----
 pysqlsync/formation/discovery.py          |  7 ++-
 2 files changed, 70 insertions(+), 14 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index e95e419..3869dd6 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -16,7 +16,12 @@ from pysqlsync.formation.object_types import (
     StructType,
     Table,
 )
-from pysqlsync.model.data_types import SqlArrayType, SqlUserDefinedType, quote
+from pysqlsync.model.data_types import (
+    SqlArrayType,
+    SqlDataType,
+    SqlUserDefinedType,
+    quote,
+)
 from pysqlsync.model.id_types import GlobalId, LocalId, QualifiedId, SupportsQualifiedId
 
 from .data_types import PostgreSQLJsonType
@@ -66,6 +71,28 @@ def to_default_expr(expr: Optional[str]) -> Optional[str]:
     return expr
 
 
+def _localize_id(id: QualifiedId, current_schema: Optional[str]) -> QualifiedId:
+    "Omits the schema name for objects in the current schema."
+
+    if current_schema is not None and id.scope_id == current_schema:
+        return QualifiedId(None, id.local_id)
+    else:
+        return id
+
+
+def _localize_type(
+    data_type: SqlDataType, current_schema: Optional[str]
+) -> SqlDataType:
+    "Omits the schema name for user-defined types in the current schema."
+
+    if isinstance(data_type, SqlUserDefinedType) and isinstance(
+        data_type.ref, QualifiedId
+    ):
+        return SqlUserDefinedType(_localize_id(data_type.ref, current_schema))
+    else:
+        return data_type
+
+
 @dataclass
 class PostgreSQLStructMeta:
     description: str
@@ -130,6 +157,14 @@ class PostgreSQLExplorer(Explorer):
         )
         self.factory = PostgreSQLObjectFactory()
 
+    async def _get_current_schema(self, id: SupportsQualifiedId) -> Optional[str]:
+        "Returns the schema whose objects are referred to without a schema name, as is the object itself."
+
+        if id.scope_id is None:
+            return await self.conn.current_schema()
+        else:
+            return None
+
     async def get_table_names(self) -> list[QualifiedId]:
         rows = await self.conn.query_all(
             tuple[str, str],
@@ -139,12 +174,18 @@ class PostgreSQLExplorer(Explorer):
         )
         return [QualifiedId(row[0], row[1]) for row in rows]  # type: ignore
 
+    @classmethod
+    def _where_namespace(cls, scope_id: Optional[str]) -> str:
+        if scope_id is not None:
+            return f"nsp.nspname = {quote(scope_id)}"
+        else:
+            return "nsp.nspname = current_schema()"
+
     @classmethod
     def _where_relation(cls, relation_id: SupportsQualifiedId, kinds: list[str]) -> str:
         conditions: list[str] = []
         conditions.append(f"cls.relname = {quote(relation_id.local_id)}")
-        if relation_id.scope_id is not None:
-            conditions.append(f"nsp.nspname = {quote(relation_id.scope_id)}")
+        conditions.append(cls._where_namespace(relation_id.scope_id))
         conditions.append(
             " OR ".join(f"(cls.relkind = {quote(kind)})" for kind in kinds)
         )
@@ -172,8 +213,7 @@ class PostgreSQLExplorer(Explorer):
     ) -> bool:
         conditions: list[str] = []
         conditions.append(f"cls.relname = {quote(table_id.local_id)}")
-        if table_id.scope_id is not None:
-            conditions.append(f"nsp.nspname = {quote(table_id.scope_id)}")
+        conditions.append(self._where_namespace(table_id.scope_id))
         conditions.append("cls.relkind = 'r' OR cls.relkind = 'v'")
         conditions.append(f"att.attname = {quote(column_id.local_id)}")
         condition = " AND ".join(f"({c})" for c in conditions)
@@ -191,10 +231,10 @@ class PostgreSQLExplorer(Explorer):
     async def get_struct(self, struct_id: SupportsQualifiedId) -> StructType:
         conditions: list[str] = []
         conditions.append(f"typ.typname = {quote(struct_id.local_id)}")
-        if struct_id.scope_id is not None:
-            conditions.append(f"nsp.nspname = {quote(struct_id.scope_id)}")
+        conditions.append(self._where_namespace(struct_id.scope_id))
         condition = " AND ".join(f"({c})" for c in conditions)
 
+        current_schema = await self._get_current_schema(struct_id)
         struct_record = await self.conn.query_one(
             PostgreSQLStructMeta,
             "SELECT\n"
@@ -232,6 +272,7 @@ class PostgreSQLExplorer(Explorer):
                 type_schema=mem.type_schema,
                 type_def=mem.type_def,
             )
+            data_type = _localize_type(data_type, current_schema)
             members.append(
                 StructMember(
                     LocalId(mem.member_name),
@@ -247,6 +288,7 @@ class PostgreSQLExplorer(Explorer):
         )
 
     async def get_table(self, table_id: SupportsQualifiedId) -> Table:
+        current_schema = await self._get_current_schema(table_id)
         table_record = await self.conn.query_one(
             PostgreSQLTableMeta,
             "SELECT\n"
@@ -288,6 +330,7 @@ class PostgreSQLExplorer(Explorer):
                 type_schema=col.type_schema,
                 type_def=col.type_def,
             )
+            data_type = _localize_type(data_type, current_schema)
             if col.is_array:
                 data_type = SqlArrayType(data_type)
             columns.append(
@@ -342,7 +385,10 @@ class PostgreSQLExplorer(Explorer):
                 foreign.add(
                     con.constraint_name,
                     LocalId(con.source_column),
-                    QualifiedId(con.target_namespace, con.target_table),
+                    _localize_id(
+                        QualifiedId(con.target_namespace, con.target_table),
+                        current_schema,
+                    ),
                     LocalId(con.target_column),
                 )
 
@@ -362,9 +408,14 @@ class PostgreSQLExplorer(Explorer):
         schema = await self.conn.current_schema()
         if schema is None:
             raise RuntimeError("unable to fetch current schema")
-        return await self.get_namespace(LocalId(schema))
+        return await self._get_namespace(LocalId(schema), None)
 
     async def get_namespace(self, namespace_id: LocalId) -> Namespace:
+        return await self._get_namespace(namespace_id, namespace_id.id)
+
+    async def _get_namespace(
+        self, namespace_id: LocalId, scope_id: Optional[str]
+    ) -> Namespace:
         enum_records = await self.conn.query_all(
             PostgreSQLEnumMeta,
             "SELECT\n"
@@ -382,7 +433,7 @@ class PostgreSQLExplorer(Explorer):
         for enum_name, enum_groups in groupby(enum_records, key=lambda e: e.enum_name):
             enums.append(
                 EnumType(
-                    QualifiedId(namespace_id.id, enum_name),
+                    QualifiedId(scope_id, enum_name),
                     [e.enum_value for e in enum_groups],
                 )
             )
@@ -397,7 +448,7 @@ class PostgreSQLExplorer(Explorer):
 
         structs: list[StructType] = []
         for struct_name in struct_names:
-            struct = await self.get_struct(QualifiedId(namespace_id.id, struct_name))
+            struct = await self.get_struct(QualifiedId(scope_id, struct_name))
             structs.append(struct)
 
         table_names = await self.conn.query_all(
@@ -410,12 +461,12 @@ class PostgreSQLExplorer(Explorer):
 
         tables: list[Table] = []
         for table_name in table_names:
-            table = await self.get_table(QualifiedId(namespace_id.id, table_name))
+            table = await self.get_table(QualifiedId(scope_id, table_name))
             tables.append(table)
 
         if enums or structs or tables:
             return self.factory.namespace_class(
-                namespace_id, enums=enums, structs=structs, tables=tables
+                LocalId(scope_id or ""), enums=enums, structs=structs, tables=tables
             )
         else:
             return self.factory.namespace_class()
diff --git a/pysqlsync/formation/discovery.py b/pysqlsync/formation/discovery.py
index a4b1024..6e5deaa 100644
--- a/pysqlsync/formation/discovery.py
+++ b/pysqlsync/formation/discovery.py
@@ -301,10 +301,15 @@ class AnsiExplorer(Explorer):
 
         constraints = ForeignFactory()
         for con in constraint_meta:
+            if table_id.scope_id is None and con.uq_table_schema == con.fk_table_schema:
+                # tables in the current schema refer to each other without a schema name
+                uq_table_schema = None
+            else:
+                uq_table_schema = con.uq_table_schema
             constraints.add(
                 con.fk_constraint_name,
                 LocalId(con.fk_column_name),
-                QualifiedId(con.uq_table_schema, con.uq_table_name),
+                QualifiedId(uq_table_schema, con.uq_table_name),
                 LocalId(con.uq_column_name),
             )
         return constraints.fetch()
-- 
2.43.0


From 4cd3dfa6ffb8e728b63e70e1f9550216ce8d67a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:29 +0000
Subject: [PATCH 25/85] fix: permit tables of several namespaces to refer to
 each other mutually

---
 pysqlsync/formation/object_types.py | 31 +++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 3195130..dc3617c 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -728,12 +728,22 @@ class Namespace(DatabaseObject):
         return [structs[name] for name in topological_sort(graph)]
 
     def get_referenced_namespaces(self) -> set[LocalId]:
+        "Namespaces with types or tables that objects in this namespace refer to."
+
+        items: set[SupportsQualifiedId] = set()
+        for t in self.tables.values():
+            items.update(t.get_referenced_tables())
+        names = set(LocalId(i.scope_id) for i in items if i.scope_id is not None)
+        return names | self.get_type_namespaces()
+
+    def get_type_namespaces(self) -> set[LocalId]:
+        "Namespaces with types that objects in this namespace use."
+
         items: set[SupportsQualifiedId] = set()
         for s in self.structs.values():
             items.update(s.get_referenced_types())
         for t in self.tables.values():
             items.update(t.get_referenced_types())
-            items.update(t.get_referenced_tables())
         return set(LocalId(i.scope_id) for i in items if i.scope_id is not None)
 
     def create_schema_stmt(self) -> Optional[str]:
@@ -891,15 +901,24 @@ class Catalog(DatabaseObject):
 
         Namespaces that have no external references come first. The next group contains namespaces that reference
         items only in the first group of namespaces, etc.
+
+        Tables of several namespaces may refer to each other mutually, in which case only uses of types are considered.
         """
 
+        names = set(ns.name for ns in self.namespaces.values())
         graph = {
-            ns.name: ns.get_referenced_namespaces() for ns in self.namespaces.values()
+            ns.name: ns.get_referenced_namespaces() & names
+            for ns in self.namespaces.values()
         }
-        for ref_ns in graph.values():
-            ref_ns.intersection_update(graph.keys())
-        order = [name.local_id for name in topological_sort(graph)]
-        self.namespaces.reorder(order)
+        try:
+            groups = topological_sort(graph)
+        except RuntimeError:
+            graph = {
+                ns.name: ns.get_type_namespaces() & names
+                for ns in self.namespaces.values()
+            }
+            groups = topological_sort(graph)
+        self.namespaces.reorder([name.local_id for name in groups])
 
     def merge(self, op: "Catalog") -> None:
         "Merges the contents of two objects."
-- 
2.43.0


From 65d447161699b50130477ee106e7fb3881f7b7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:29 +0000
Subject: [PATCH 26/85] fix: drop types after the tables of all namespaces that
 use them

---
 pysqlsync/formation/mutation.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index bc33266..469783f 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -401,10 +401,10 @@ class Mutator:
 
         return join_or_none(statements)
 
-    def drop_namespace_objects_stmt(
+    def drop_namespace_tables_stmt(
         self, source: Namespace, target: Namespace, required: set[str]
     ) -> Optional[str]:
-        "Drops objects that are missing from the target."
+        "Drops tables that are missing from the target."
 
         statements: StatementList = StatementList()
 
@@ -415,6 +415,15 @@ class Mutator:
                 if table.name.quoted_id not in required
             )
 
+        return join_or_none(statements)
+
+    def drop_namespace_types_stmt(
+        self, source: Namespace, target: Namespace, required: set[str]
+    ) -> Optional[str]:
+        "Drops types that are missing from the target."
+
+        statements: StatementList = StatementList()
+
         if self.options.allow_drop_struct:
             statements.extend(
                 struct.drop_stmt()
@@ -507,16 +516,22 @@ class Mutator:
         # remove old constraints
         statements.extend(namespace.drop_constraints_stmt() for namespace in ns_drop)
 
-        # drop old objects
+        # drop old tables ahead of the types they use
         statements.extend(
-            self.drop_namespace_objects_stmt(source_ns, target_ns, required)
+            self.drop_namespace_tables_stmt(source_ns, target_ns, required)
             for source_ns, target_ns in reversed(ns_mutate)
         )
 
-        # drop objects in each namespace removed
-        statements.extend(
-            namespace.drop_objects_stmt() for namespace in reversed(ns_drop)
-        )
+        # drop old types, and objects in each namespace removed, following the order of references between namespaces
+        for name, source_ns in reversed(list(source.namespaces.items())):
+            if source_ns in ns_drop:
+                statements.append(source_ns.drop_objects_stmt())
+            elif name in target.namespaces:
+                statements.append(
+                    self.drop_namespace_types_stmt(
+                        source_ns, target.namespaces[name], required
+                    )
+                )
 
         # drop old namespaces
         statements.extend(
-- 
2.43.0


From 23ffe1f21f191a59a408ed5d87f132777fa63a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:15 +0000
Subject: [PATCH 27/85] fix: add columns that replace enumerations as nullable
 until data is migrated

---
 pysqlsync/formation/mutation.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 469783f..007ea58 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -1,3 +1,4 @@
+import copy
 import itertools
 from dataclasses import dataclass
 from typing import Optional, Union
@@ -168,21 +169,25 @@ class Mutator:
         create_columns = list(target.columns.difference(source.columns))
         common_columns = list(source.columns.intersection(target.columns))
         drop_columns = list(source.columns.difference(target.columns))
-        migrated_columns: list[tuple[Column, Column]] = []
+        migrated_columns: list[tuple[Column, Column, Column]] = []
 
         # accumulate object creation statements
         create_stmts: list[str] = []
 
         # rename conflicting columns
         try:
-            for pair in common_columns:
-                source_column, target_column = pair
+            for source_column, target_column in common_columns:
                 if self.is_column_migrated(source_column, target_column):
                     statements.append(
                         source.alter_table_stmt([source_column.soft_drop_stmt()])
                     )
-                    create_stmts.append(target_column.create_stmt())
-                    migrated_columns.append(pair)
+                    # column has no values until data is migrated
+                    interim_column = copy.copy(target_column)
+                    interim_column.nullable = True
+                    create_stmts.append(interim_column.create_stmt())
+                    migrated_columns.append(
+                        (source_column, interim_column, target_column)
+                    )
         except ColumnFormationError as e:
             raise TableFormationError(
                 "failed to migrate columns in table", target.name
@@ -211,12 +216,15 @@ class Mutator:
 
         # migrate data when data type changes
         try:
-            for source_column, target_column in migrated_columns:
+            for source_column, interim_column, target_column in migrated_columns:
                 statements.append(
                     self.migrate_column_stmt(
                         source, source_column, target, target_column
                     )
                 )
+                alter_stmts.append(
+                    self.mutate_column_stmt(interim_column, target_column)
+                )
                 alter_stmts.append(source_column.hard_drop_stmt())
         except ColumnFormationError as e:
             raise TableFormationError(
@@ -225,7 +233,10 @@ class Mutator:
 
         # mutate existing columns as necessary
         try:
+            migrated_names = [target.name for _, _, target in migrated_columns]
             for source_column, target_column in common_columns:
+                if target_column.name in migrated_names:
+                    continue
                 alter_stmts.append(
                     self.mutate_column_stmt(source_column, target_column)
                 )
-- 
2.43.0


From 2d12de92ceb4af5f4d3534d2eeab3b40799ffb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:13 +0000
Subject: [PATCH 28/85] fix: keep text values when a column becomes a reference
 to a lookup table

---
 pysqlsync/dialect/mysql/mutation.py      |  3 ++-
 pysqlsync/dialect/postgresql/mutation.py | 20 +++++++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index fcf33d4..c470e17 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -35,7 +35,8 @@ class MySQLMutator(Mutator):
             )
         elif isinstance(source.data_type, SqlVariableCharacterType):
             statements.append(
-                f'INSERT INTO {ref.table} ("value") SELECT DISTINCT {LocalId(deleted(source.name.id))} FROM {source_table.name}\n'
+                f'INSERT INTO {ref.table} ("value") SELECT DISTINCT {LocalId(deleted(source.name.id))} FROM {source_table.name} '
+                f"WHERE {LocalId(deleted(source.name.id))} IS NOT NULL\n"
                 'ON DUPLICATE KEY UPDATE "value" = "value";'
             )
         statements.append(
diff --git a/pysqlsync/dialect/postgresql/mutation.py b/pysqlsync/dialect/postgresql/mutation.py
index 03da4af..c979ff9 100644
--- a/pysqlsync/dialect/postgresql/mutation.py
+++ b/pysqlsync/dialect/postgresql/mutation.py
@@ -10,7 +10,12 @@ from pysqlsync.formation.object_types import (
     deleted,
     join_or_none,
 )
-from pysqlsync.model.data_types import SqlIntegerType, SqlUserDefinedType, quote
+from pysqlsync.model.data_types import (
+    SqlIntegerType,
+    SqlUserDefinedType,
+    SqlVariableCharacterType,
+    quote,
+)
 from pysqlsync.model.id_types import LocalId
 from pysqlsync.util.typing import override
 
@@ -39,12 +44,21 @@ class PostgreSQLMutator(Mutator):
         self, source_table: Table, source: Column, target_table: Table, target: Column
     ) -> Optional[str]:
         ref = target_table.get_constraint(target.name)
-        return (
+        source_name = LocalId(deleted(source.name.id))
+        statements: list[str] = []
+        if isinstance(source.data_type, SqlVariableCharacterType):
+            statements.append(
+                f'INSERT INTO {ref.table} ("value") SELECT DISTINCT {source_name} FROM {source_table.name} '
+                f"WHERE {source_name} IS NOT NULL\n"
+                'ON CONFLICT ("value") DO NOTHING;'
+            )
+        statements.append(
             f"UPDATE {source_table.name} data_table\n"
             f'SET {target.name} = enum_table."id"\n'
             f"FROM {ref.table} enum_table\n"
-            f'WHERE data_table.{LocalId(deleted(source.name.id))}::VARCHAR = enum_table."value";'
+            f'WHERE data_table.{source_name}::VARCHAR = enum_table."value";'
         )
+        return "\n".join(statements)
 
     def mutate_table_stmt(self, source: Table, target: Table) -> Optional[str]:
         statements: StatementList = StatementList()
-- 
2.43.0


From 8562e8913a8b278bf0f15343cb3a2be627f96c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 29/85] fix: drop one constraint in each statement with Oracle

---
 pysqlsync/formation/object_types.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index dc3617c..009bdd9 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -578,12 +578,8 @@ class Table(DatabaseObject, QualifiedObject):
 
     def drop_constraints_stmt(self) -> Optional[str]:
         if self.table_constraints:
-            return (
-                f"ALTER TABLE {self.name}\n"
-                + ",\n".join(
-                    f"DROP CONSTRAINT {c.name}" for c in self.table_constraints
-                )
-                + "\n;"
+            return self.alter_table_stmt(
+                [f"DROP CONSTRAINT {c.name}" for c in self.table_constraints]
             )
         else:
             return None
-- 
2.43.0


From 2286507b4645e7f493e76549ca11e604412a48a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:37 +0000
Subject: [PATCH 30/85] fix: accept lists of enumerations and structures that
 are declared later

---
 pysqlsync/formation/py_to_sql.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 32826b3..a42cb52 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -599,6 +599,7 @@ class DataclassConverter:
                 item_type = unwrap_generic_list(typ)
             else:
                 raise NotImplementedError("match not exhaustive: list | set")
+            item_type = evaluate_member_type(item_type, cls)
             if is_simple_type(item_type):
                 if self.options.array_mode is ArrayMode.ARRAY:
                     return SqlArrayType(self.simple_type_to_sql_data_type(item_type))
-- 
2.43.0


From bc9b956214c34edfd380e7468050cc02030f2211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:27 +0000
Subject: [PATCH 31/85] fix: list composite types in the same order for equal
 classes

---
 pysqlsync/formation/py_to_sql.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index a42cb52..3004972 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -49,7 +49,7 @@ from strong_typing.inspection import (
     unwrap_optional_type,
     unwrap_union_types,
 )
-from strong_typing.topological import type_topological_sort
+from strong_typing.topological import topological_sort
 
 from ..model.data_types import (
     CompatibilityError,
@@ -197,7 +197,13 @@ def _topological_sort(class_types: list[type]) -> list[type]:
     :returns: A list of the same types but in topological order.
     """
 
-    return [t for t in type_topological_sort(class_types) if t in class_types]
+    # the order of types that are unrelated is the order in which they are listed
+    references = {t: get_referenced_types(t) for t in class_types}
+    graph = {
+        t: [r for r in class_types if r is not t and r in refs]
+        for t, refs in references.items()
+    }
+    return topological_sort(graph)
 
 
 @dataclasses.dataclass
-- 
2.43.0


From 4460715cd9eed61228ef33a0eaf21efc02ec692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 32/85] fix: list namespaces in the same order irrespective of
 hash values

---
 pysqlsync/formation/object_types.py | 42 +++++++++++++++++------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 009bdd9..43183dd 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -714,12 +714,11 @@ class Namespace(DatabaseObject):
 
         structs = {struct.name.quoted_id: struct for struct in self.structs.values()}
         graph = {
-            name: set(
-                ref.quoted_id
-                for ref in struct.get_referenced_types()
-                if ref.quoted_id in structs
+            name: [n for n in structs if n in refs]
+            for name, refs in (
+                (name, {ref.quoted_id for ref in struct.get_referenced_types()})
+                for name, struct in structs.items()
             )
-            for name, struct in structs.items()
         }
         return [structs[name] for name in topological_sort(graph)]
 
@@ -901,20 +900,29 @@ class Catalog(DatabaseObject):
         Tables of several namespaces may refer to each other mutually, in which case only uses of types are considered.
         """
 
-        names = set(ns.name for ns in self.namespaces.values())
-        graph = {
-            ns.name: ns.get_referenced_namespaces() & names
-            for ns in self.namespaces.values()
-        }
+        names = [ns.name for ns in self.namespaces.values()]
+
+        def get_order(references: dict[LocalId, set[LocalId]]) -> list[LocalId]:
+            # the order of namespaces that are unrelated does not change
+            return topological_sort(
+                {
+                    name: [n for n in names if n in refs]
+                    for name, refs in references.items()
+                }
+            )
+
         try:
-            groups = topological_sort(graph)
+            order = get_order(
+                {
+                    ns.name: ns.get_referenced_namespaces()
+                    for ns in self.namespaces.values()
+                }
+            )
         except RuntimeError:
-            graph = {
-                ns.name: ns.get_type_namespaces() & names
-                for ns in self.namespaces.values()
-            }
-            groups = topological_sort(graph)
-        self.namespaces.reorder([name.local_id for name in groups])
+            order = get_order(
+                {ns.name: ns.get_type_namespaces() for ns in self.namespaces.values()}
+            )
+        self.namespaces.reorder([name.local_id for name in order])
 
     def merge(self, op: "Catalog") -> None:
         "Merges the contents of two objects."
-- 
2.43.0


From 34ba0e6ce628d8523f22e246735cd375f08f2ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:05 +0000
Subject: [PATCH 33/85] fix: convert values of optional and annotated fields of
 objects, and naive times

---
 pysqlsync/base.py                       | 15 ++++++++++++---
 pysqlsync/dialect/mssql/generator.py    | 11 -----------
 pysqlsync/dialect/mysql/generator.py    | 11 -----------
 pysqlsync/dialect/oracle/generator.py   | 24 +++---------------------
 pysqlsync/dialect/redshift/generator.py | 11 -----------
 5 files changed, 15 insertions(+), 57 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 0ef6a2c..8472e6b 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -44,6 +44,7 @@ from .formation.object_types import (
 from .formation.py_to_sql import ArrayMode, DataclassConverter, EnumMode, StructMode
 from .model.data_types import SqlJsonType, SqlVariableCharacterType
 from .model.id_types import LocalId, QualifiedId, SupportsQualifiedId
+from .model.properties import get_field_properties
 from .python_types import dataclass_to_code, module_to_code
 
 D = TypeVar("D", bound=DataclassInstance)
@@ -502,11 +503,19 @@ class BaseGenerator(abc.ABC):
     ) -> Callable[[Any], Any]:
         "Returns a callable function object that extracts a single field of a data-class."
 
-        if is_type_enum(field_type):
-            return lambda obj: getattr(obj, field_name).value
-        else:
+        plain_type = typing.cast(type, get_field_properties(field_type).plain_type)
+        transformer = self.get_value_transformer(column, plain_type)
+        if transformer is None:
             return lambda obj: getattr(obj, field_name)
 
+        def _extract(
+            obj: Any, transformer: Callable[[Any], Any] = transformer
+        ) -> Optional[Any]:
+            value = getattr(obj, field_name)
+            return transformer(value) if value is not None else None
+
+        return _extract
+
     def get_value_transformer(
         self, column: Column, field_type: type
     ) -> Optional[Callable[[Any], Any]]:
diff --git a/pysqlsync/dialect/mssql/generator.py b/pysqlsync/dialect/mssql/generator.py
index 5fefa1c..044777c 100644
--- a/pysqlsync/dialect/mssql/generator.py
+++ b/pysqlsync/dialect/mssql/generator.py
@@ -77,17 +77,6 @@ class MSSQLGenerator(BaseGenerator):
     def placeholder(self, index: int) -> str:
         return "?"
 
-    @override
-    def get_field_extractor(
-        self, column: Column, field_name: str, field_type: type
-    ) -> Callable[[Any], Any]:
-        if field_type is uuid.UUID:
-            return lambda obj: getattr(obj, field_name).bytes
-        elif is_ip_address_type(field_type):
-            return lambda obj: getattr(obj, field_name).packed
-
-        return super().get_field_extractor(column, field_name, field_type)
-
     @override
     def get_value_transformer(
         self, column: Column, field_type: type
diff --git a/pysqlsync/dialect/mysql/generator.py b/pysqlsync/dialect/mysql/generator.py
index d7487fc..93b74ce 100644
--- a/pysqlsync/dialect/mysql/generator.py
+++ b/pysqlsync/dialect/mysql/generator.py
@@ -116,17 +116,6 @@ class MySQLGenerator(BaseGenerator):
         statements.append(";")
         return "\n".join(statements)
 
-    @override
-    def get_field_extractor(
-        self, column: Column, field_name: str, field_type: type
-    ) -> Callable[[Any], Any]:
-        if field_type is uuid.UUID:
-            return lambda obj: getattr(obj, field_name).bytes
-        elif is_ip_address_type(field_type):
-            return lambda obj: getattr(obj, field_name).packed
-
-        return super().get_field_extractor(column, field_name, field_type)
-
     @override
     def get_value_transformer(
         self, column: Column, field_type: type
diff --git a/pysqlsync/dialect/oracle/generator.py b/pysqlsync/dialect/oracle/generator.py
index cfa03d9..5138571 100644
--- a/pysqlsync/dialect/oracle/generator.py
+++ b/pysqlsync/dialect/oracle/generator.py
@@ -38,8 +38,6 @@ from .data_types import (
 )
 from .object_types import OracleObjectFactory
 
-MIN_DATETIME = datetime.datetime.min.replace(tzinfo=datetime.timezone.utc)
-MIN_DATE = datetime.date.min
 
 
 class OracleGenerator(BaseGenerator):
@@ -98,24 +96,6 @@ class OracleGenerator(BaseGenerator):
     def placeholder(self, index: int) -> str:
         return f":{index}"
 
-    @override
-    def get_field_extractor(
-        self, column: Column, field_name: str, field_type: type
-    ) -> Callable[[Any], Any]:
-        if field_type is uuid.UUID:
-            return lambda obj: getattr(obj, field_name).bytes
-        elif is_ip_address_type(field_type):
-            return lambda obj: getattr(obj, field_name).packed
-        elif field_type is datetime.time:
-            return (
-                lambda obj: datetime.datetime.combine(
-                    MIN_DATE, getattr(obj, field_name)
-                )
-                - MIN_DATETIME
-            )
-
-        return super().get_field_extractor(column, field_name, field_type)
-
     @override
     def get_value_transformer(
         self, column: Column, field_type: type
@@ -126,7 +106,9 @@ class OracleGenerator(BaseGenerator):
             return lambda field: field.packed
         elif field_type is datetime.time:
             return (
-                lambda field: datetime.datetime.combine(datetime.date.min, field)
+                lambda field: datetime.datetime.combine(
+                    datetime.date.min, field.replace(tzinfo=None)
+                )
                 - datetime.datetime.min
             )
 
diff --git a/pysqlsync/dialect/redshift/generator.py b/pysqlsync/dialect/redshift/generator.py
index 3a1a2cc..4ae656f 100644
--- a/pysqlsync/dialect/redshift/generator.py
+++ b/pysqlsync/dialect/redshift/generator.py
@@ -63,17 +63,6 @@ class RedshiftGenerator(BaseGenerator):
     def placeholder(self, index: int) -> str:
         return f":{index}"
 
-    @override
-    def get_field_extractor(
-        self, column: Column, field_name: str, field_type: type
-    ) -> Callable[[Any], Any]:
-        if field_type is uuid.UUID:
-            return lambda obj: getattr(obj, field_name).bytes
-        elif is_ip_address_type(field_type):
-            return lambda obj: getattr(obj, field_name).packed
-
-        return super().get_field_extractor(column, field_name, field_type)
-
     @override
     def get_value_transformer(
         self, column: Column, field_type: type
-- 
2.43.0


From d6365b18ee1c9350f03d360c7058b5bdb62a4091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 34/85] fix: convert lists, sets and structures of objects to
 the representation of their column

---
 pysqlsync/base.py                     | 73 +++++++++++++++++++++++++--
 pysqlsync/dialect/oracle/generator.py |  1 -
 2 files changed, 69 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 8472e6b..616b776 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -8,12 +8,17 @@ schema and data.
 """
 
 import abc
+import base64
 import dataclasses
+import datetime
+import decimal
 import enum
+import ipaddress
 import json
 import logging
 import types
 import typing
+import uuid
 from dataclasses import dataclass
 from typing import (
     Any,
@@ -27,7 +32,12 @@ from typing import (
     overload,
 )
 
-from strong_typing.inspection import DataclassInstance, is_dataclass_type, is_type_enum
+from strong_typing.inspection import (
+    DataclassInstance,
+    is_dataclass_instance,
+    is_dataclass_type,
+    is_type_enum,
+)
 from strong_typing.name import python_type_to_str
 
 from .connection import ConnectionParameters
@@ -42,7 +52,12 @@ from .formation.object_types import (
     Table,
 )
 from .formation.py_to_sql import ArrayMode, DataclassConverter, EnumMode, StructMode
-from .model.data_types import SqlJsonType, SqlVariableCharacterType
+from .model.data_types import (
+    SqlArrayType,
+    SqlJsonType,
+    SqlUserDefinedType,
+    SqlVariableCharacterType,
+)
 from .model.id_types import LocalId, QualifiedId, SupportsQualifiedId
 from .model.properties import get_field_properties
 from .python_types import dataclass_to_code, module_to_code
@@ -56,7 +71,31 @@ RecordSource = Union[Iterable[RecordType], AsyncIterable[RecordType]]
 
 LOGGER = logging.getLogger("pysqlsync")
 
+
+def _json_default(value: Any) -> Any:
+    "Converts a value that has no direct JSON representation."
+
+    if isinstance(value, enum.Enum):
+        return value.value
+    elif isinstance(value, (list, set, frozenset, tuple)):
+        return list(value)
+    elif is_dataclass_instance(value):
+        return {f.name: getattr(value, f.name) for f in dataclasses.fields(value)}
+    elif isinstance(value, (datetime.datetime, datetime.date, datetime.time)):
+        return value.isoformat()
+    elif isinstance(value, bytes):
+        return base64.b64encode(value).decode("ascii")
+    elif isinstance(
+        value,
+        (uuid.UUID, decimal.Decimal, ipaddress.IPv4Address, ipaddress.IPv6Address),
+    ):
+        return str(value)
+
+    raise TypeError(f"value of type {type(value)} is not JSON serializable")
+
+
 _JSON_ENCODER = json.JSONEncoder(
+    default=_json_default,
     ensure_ascii=False,
     check_circular=False,
     allow_nan=False,
@@ -68,6 +107,22 @@ _JSON_ENCODER = json.JSONEncoder(
 BATCH_SIZE = 100000
 
 
+def _to_composite(value: Any) -> Any:
+    "Converts elements of a list or set, and members of a structure into types recognized by a database driver."
+
+    if isinstance(value, enum.Enum):
+        return value.value
+    elif isinstance(value, (list, set, frozenset)):
+        return [_to_composite(item) for item in value]
+    elif is_dataclass_instance(value):
+        return {
+            f.name: _to_composite(getattr(value, f.name))
+            for f in dataclasses.fields(value)
+        }
+    else:
+        return value
+
+
 class ClassRef:
     "Represents a reference to a Python class in a Python module."
 
@@ -521,11 +576,21 @@ class BaseGenerator(abc.ABC):
     ) -> Optional[Callable[[Any], Any]]:
         "Returns a callable function object that transforms a value type into the expected column type."
 
+        origin_type = typing.get_origin(field_type) or field_type
+        is_composite = (
+            origin_type is dict
+            or origin_type is list
+            or origin_type is set
+            or is_dataclass_type(field_type)
+        )
         if isinstance(column.data_type, SqlJsonType) or (
-            isinstance(column.data_type, SqlVariableCharacterType)
-            and (field_type is dict or field_type is list or field_type is set)
+            isinstance(column.data_type, SqlVariableCharacterType) and is_composite
         ):
             return lambda field: _JSON_ENCODER.encode(field)
+        elif is_composite and isinstance(
+            column.data_type, (SqlArrayType, SqlUserDefinedType)
+        ):
+            return _to_composite
 
         if is_type_enum(field_type):
             return lambda field: field.value
diff --git a/pysqlsync/dialect/oracle/generator.py b/pysqlsync/dialect/oracle/generator.py
index 5138571..da84c52 100644
--- a/pysqlsync/dialect/oracle/generator.py
+++ b/pysqlsync/dialect/oracle/generator.py
@@ -39,7 +39,6 @@ from .data_types import (
 from .object_types import OracleObjectFactory
 
 
-
 class OracleGenerator(BaseGenerator):
     "Generator for Oracle."
 
-- 
2.43.0


From 2713f4bcbdbf7e3f274e00eac188908d0bd783fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:51 +0000
Subject: [PATCH 35/85] fix: resolve enumeration values of objects with lookup
 tables

---
 pysqlsync/base.py                          | 86 ++++++++++++++++++----
 pysqlsync/dialect/postgresql/connection.py | 24 +++---
 2 files changed, 84 insertions(+), 26 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 616b776..8ea07a5 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -37,6 +37,8 @@ from strong_typing.inspection import (
     is_dataclass_instance,
     is_dataclass_type,
     is_type_enum,
+    is_type_union,
+    unwrap_union_types,
 )
 from strong_typing.name import python_type_to_str
 
@@ -107,6 +109,12 @@ _JSON_ENCODER = json.JSONEncoder(
 BATCH_SIZE = 100000
 
 
+def _enum_value(value: Any) -> Any:
+    "Value of an enumeration member. Values that are not members of an enumeration are left intact."
+
+    return value.value if isinstance(value, enum.Enum) else value
+
+
 def _to_composite(value: Any) -> Any:
     "Converts elements of a list or set, and members of a structure into types recognized by a database driver."
 
@@ -592,22 +600,25 @@ class BaseGenerator(abc.ABC):
         ):
             return _to_composite
 
-        if is_type_enum(field_type):
-            return lambda field: field.value
+        if is_type_enum(field_type) or (
+            is_type_union(field_type)
+            and any(is_type_enum(t) for t in unwrap_union_types(field_type))
+        ):
+            return _enum_value
         else:
             return None
 
     def get_enum_transformer(self, enum_dict: dict[str, int]) -> Callable[[Any], Any]:
         "Returns a callable function object that looks up an assigned integer value based on the enumeration string value."
 
-        return lambda field: enum_dict[field]
+        return lambda field: enum_dict[_enum_value(field)]
 
     def get_enum_list_transformer(
         self, enum_dict: dict[str, int]
     ) -> Callable[[Any], Any]:
         "Returns a callable function object that looks up assigned integer values based on a list of enumeration string values."
 
-        return lambda field: [enum_dict[item] for item in field]
+        return lambda field: [enum_dict[_enum_value(item)] for item in field]
 
 
 class QueryException(RuntimeError):
@@ -735,7 +746,7 @@ class EnumTransformer(BaseEnumTransformer):
         # a single enumeration value represented as a string
         values: set[Optional[str]] = set()
         for record in records:
-            values.add(record[self.index])
+            values.add(_enum_value(record[self.index]))
         values.discard(None)  # do not insert NULL into referenced table
         enum_dict = await self._merge_lookup_table(typing.cast(set[str], values))
         return self.generator.get_enum_transformer(enum_dict)
@@ -752,7 +763,7 @@ class EnumListTransformer(BaseEnumTransformer):
         # a list of enumeration values represented as a list of strings
         values: set[Optional[str]] = set()
         for record in records:
-            values.update(record[self.index])
+            values.update(_enum_value(item) for item in record[self.index] or ())
         values.discard(None)  # do not insert NULL into referenced table
         enum_list_dict = await self._merge_lookup_table(typing.cast(set[str], values))
         return self.generator.get_enum_list_transformer(enum_list_dict)
@@ -961,6 +972,9 @@ class BaseContext(abc.ABC):
             LOGGER.debug("execute SQL:\n%s", statement)
 
         source = to_data_source(records)
+        await self._execute_source(statement, source)
+
+    async def _execute_source(self, statement: str, source: DataSource) -> None:
         try:
             await self._execute_all(statement, source)
         except QueryException:
@@ -1083,8 +1097,8 @@ class BaseContext(abc.ABC):
 
         generator = self.connection.generator
         statement = generator.get_dataclass_insert_stmt(table)
-        records = generator.get_dataclasses_as_records(table, data, skip_identity=True)
-        await self.execute_all(statement, records)
+        source = self._get_object_source(table, data, skip_identity=True)
+        await self._execute_source(statement, source)
 
     async def upsert_data(self, table: type[D], data: Iterable[D]) -> None:
         "Inserts or updates data in the database table corresponding to the dataclass type."
@@ -1095,8 +1109,42 @@ class BaseContext(abc.ABC):
 
         generator = self.connection.generator
         statement = generator.get_dataclass_upsert_stmt(table)
-        records = generator.get_dataclasses_as_records(table, data, skip_identity=False)
-        await self.execute_all(statement, records)
+        source = self._get_object_source(table, data, skip_identity=False)
+        await self._execute_source(statement, source)
+
+    def _get_object_source(
+        self, entity_type: type[D], data: Iterable[D], *, skip_identity: bool
+    ) -> DataSource:
+        "Creates a source of records from data-class objects, replacing enumeration values with lookup table keys."
+
+        generator = self.connection.generator
+        records = generator.get_dataclasses_as_records(
+            entity_type, data, skip_identity=skip_identity
+        )
+        source = IterableDataSource(records)
+
+        table = self.get_table(entity_type)
+        transformers: list[RecordTransformer] = []
+        for field in dataclasses.fields(entity_type):
+            column = table.columns[field.name]
+            if skip_identity and column.identity:
+                continue
+
+            plain_type = get_field_properties(field.type).plain_type
+            relation = self._get_lookup_table(table, column)
+            if relation is not None and (
+                is_type_enum(plain_type) or is_type_union(plain_type)
+            ):
+                transformers.append(
+                    EnumTransformer(self, relation, generator, len(transformers))
+                )
+            else:
+                transformers.append(ScalarTransformer(None))
+
+        if any(isinstance(t, EnumTransformer) for t in transformers):
+            return TransformerDataSource(source, transformers)
+        else:
+            return source
 
     async def delete_data(
         self, table: type[DataclassInstance], keys: Iterable[Any]
@@ -1301,17 +1349,15 @@ class BaseContext(abc.ABC):
 
         transformer = generator.get_value_transformer(column, field_type)
 
-        if not table.is_relation(column):
-            return ScalarTransformer(transformer)
-        relation = generator.state.get_referenced_table(table.name, column.name)
-        if not relation.is_lookup_table():
+        relation = self._get_lookup_table(table, column)
+        if relation is None:
             return ScalarTransformer(transformer)
 
         LOGGER.debug(
             "found lookup table column %s in table %s", column.name, table.name
         )
 
-        if field_type is str:
+        if field_type is str or is_type_enum(field_type):
             return EnumTransformer(
                 self,
                 relation,
@@ -1328,6 +1374,16 @@ class BaseContext(abc.ABC):
         else:
             return ScalarTransformer(transformer)
 
+    def _get_lookup_table(self, table: Table, column: Column) -> Optional[Table]:
+        "Returns the lookup table that a column references, if any."
+
+        if not table.is_relation(column):
+            return None
+        relation = self.connection.generator.state.get_referenced_table(
+            table.name, column.name
+        )
+        return relation if relation.is_lookup_table() else None
+
     async def delete_rows(
         self, table: Table, key_type: type, key_values: Iterable[Any]
     ) -> None:
diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index b47f64c..68032a2 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -120,18 +120,20 @@ class PostgreSQLContext(BaseContext):
             raise TypeError(f"expected dataclass type, got: {table}")
         generator = self.connection.generator
         table_name = generator.get_qualified_id(ClassRef(table))
-        records = generator.get_dataclasses_as_records(table, data, skip_identity=True)
-        result = await self.native_connection.copy_records_to_table(
-            schema_name=table_name.scope_id,
-            table_name=table_name.local_id,
-            columns=tuple(
-                field.name
-                for field in dataclasses.fields(table)
-                if not is_identity_type(field.type)
-            ),
-            records=records,
+        columns = tuple(
+            field.name
+            for field in dataclasses.fields(table)
+            if not is_identity_type(field.type)
         )
-        LOGGER.debug(result)
+        source = self._get_object_source(table, data, skip_identity=True)
+        async for batch in source.batches():
+            result = await self.native_connection.copy_records_to_table(
+                schema_name=table_name.scope_id,
+                table_name=table_name.local_id,
+                columns=columns,
+                records=batch,
+            )
+            LOGGER.debug(result)
 
     @override
     async def _insert_rows(
-- 
2.43.0


From f6d8832df9a2dae3c0eb37120957be182527488c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:46 +0000
Subject: [PATCH 36/85] fix: express time zone aware timestamps in UTC

---
 pysqlsync/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 8ea07a5..6516498 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -115,6 +115,15 @@ def _enum_value(value: Any) -> Any:
     return value.value if isinstance(value, enum.Enum) else value
 
 
+def _to_utc(value: datetime.datetime) -> datetime.datetime:
+    "Expresses a time zone aware timestamp in UTC. Naive timestamps are understood as UTC, and are left intact."
+
+    if value.tzinfo is not None:
+        return value.astimezone(datetime.timezone.utc)
+    else:
+        return value
+
+
 def _to_composite(value: Any) -> Any:
     "Converts elements of a list or set, and members of a structure into types recognized by a database driver."
 
@@ -605,6 +614,8 @@ class BaseGenerator(abc.ABC):
             and any(is_type_enum(t) for t in unwrap_union_types(field_type))
         ):
             return _enum_value
+        elif field_type is datetime.datetime:
+            return _to_utc
         else:
             return None
 
-- 
2.43.0


From 6de0f84cf643ce403f097d8d44af8aaafeca8081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:32 +0000
Subject: [PATCH 37/85] fix: store members of enumerations with integer values

---
 pysqlsync/base.py | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 6516498..92b31fe 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -56,6 +56,7 @@ from .formation.object_types import (
 from .formation.py_to_sql import ArrayMode, DataclassConverter, EnumMode, StructMode
 from .model.data_types import (
     SqlArrayType,
+    SqlIntegerType,
     SqlJsonType,
     SqlUserDefinedType,
     SqlVariableCharacterType,
@@ -607,29 +608,47 @@ class BaseGenerator(abc.ABC):
         elif is_composite and isinstance(
             column.data_type, (SqlArrayType, SqlUserDefinedType)
         ):
-            return _to_composite
+            if isinstance(column.data_type, SqlArrayType) and isinstance(
+                column.data_type.element_type, SqlUserDefinedType
+            ):
+                return lambda field: [
+                    (
+                        str(item.value)
+                        if isinstance(item, enum.Enum)
+                        else _to_composite(item)
+                    )
+                    for item in field
+                ]
+            else:
+                return _to_composite
 
         if is_type_enum(field_type) or (
             is_type_union(field_type)
             and any(is_type_enum(t) for t in unwrap_union_types(field_type))
         ):
-            return _enum_value
+            if isinstance(column.data_type, SqlIntegerType):
+                return _enum_value
+            else:
+                return lambda field: str(_enum_value(field))
         elif field_type is datetime.datetime:
             return _to_utc
+        elif field_type is str and isinstance(column.data_type, SqlIntegerType):
+            # integer value of an enumeration member, represented as a string
+            return int
         else:
             return None
 
     def get_enum_transformer(self, enum_dict: dict[str, int]) -> Callable[[Any], Any]:
         "Returns a callable function object that looks up an assigned integer value based on the enumeration string value."
 
-        return lambda field: enum_dict[_enum_value(field)]
+        return lambda field: enum_dict[str(_enum_value(field))]
 
     def get_enum_list_transformer(
         self, enum_dict: dict[str, int]
     ) -> Callable[[Any], Any]:
         "Returns a callable function object that looks up assigned integer values based on a list of enumeration string values."
 
-        return lambda field: [enum_dict[_enum_value(item)] for item in field]
+        return lambda field: [enum_dict[str(_enum_value(item))] for item in field]
 
 
 class QueryException(RuntimeError):
@@ -755,11 +774,12 @@ class EnumTransformer(BaseEnumTransformer):
         "Returns a callable function object that looks up an assigned integer value based on the enumeration string value."
 
         # a single enumeration value represented as a string
-        values: set[Optional[str]] = set()
+        values: set[str] = set()
         for record in records:
-            values.add(_enum_value(record[self.index]))
-        values.discard(None)  # do not insert NULL into referenced table
-        enum_dict = await self._merge_lookup_table(typing.cast(set[str], values))
+            value = record[self.index]
+            if value is not None:  # do not insert NULL into referenced table
+                values.add(str(_enum_value(value)))
+        enum_dict = await self._merge_lookup_table(values)
         return self.generator.get_enum_transformer(enum_dict)
 
 
@@ -772,11 +792,10 @@ class EnumListTransformer(BaseEnumTransformer):
         "Returns a callable function object that looks up assigned integer values based on a list of enumeration string values."
 
         # a list of enumeration values represented as a list of strings
-        values: set[Optional[str]] = set()
+        values: set[str] = set()
         for record in records:
-            values.update(_enum_value(item) for item in record[self.index] or ())
-        values.discard(None)  # do not insert NULL into referenced table
-        enum_list_dict = await self._merge_lookup_table(typing.cast(set[str], values))
+            values.update(str(_enum_value(item)) for item in record[self.index] or ())
+        enum_list_dict = await self._merge_lookup_table(values)
         return self.generator.get_enum_list_transformer(enum_list_dict)
 
 
-- 
2.43.0


From 31607f90b721347b525418802c5b31f20476c0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:19 +0000
Subject: [PATCH 38/85] fix: omit fields that are not stored, and values of
 identity columns, when rows are inserted

---
 pysqlsync/base.py                          | 32 +++++++++++++++++++---
 pysqlsync/dialect/postgresql/connection.py |  2 +-
 pysqlsync/dialect/redshift/connection.py   |  2 +-
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 92b31fe..435c39c 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -1236,10 +1236,17 @@ class BaseContext(abc.ABC):
         Override in engine-specific derived classes.
         """
 
+        # values of identity columns are generated by the database engine
+        names = field_names if field_names is not None else tuple(table.columns.keys())
+        field_names = tuple(
+            name if name and not table.get_columns((name,))[0].identity else ""
+            for name in names
+        )
+
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
         )
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = self._get_field_order(table, field_types, field_names)
         statement = self.connection.generator.get_table_insert_stmt(table, order)
         await self._execute_typed(statement, record_generator, table, order)
 
@@ -1297,11 +1304,27 @@ class BaseContext(abc.ABC):
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
         )
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = self._get_field_order(table, field_types, field_names)
         statement = self.connection.generator.get_table_upsert_stmt(table, order)
 
         await self._execute_typed(statement, record_generator, table, order)
 
+    def _get_field_order(
+        self,
+        table: Table,
+        field_types: tuple[type, ...],
+        field_names: Optional[tuple[str, ...]],
+    ) -> tuple[str, ...]:
+        "Names of the columns that records have a value for, in the order of values."
+
+        if field_names is None:
+            field_names = tuple(table.columns.keys())
+        return tuple(
+            name
+            for field_type, name in zip(field_types, field_names)
+            if name and field_type is not type(None)
+        )
+
     async def _generate_records(
         self,
         table: Table,
@@ -1341,13 +1364,14 @@ class BaseContext(abc.ABC):
             )
             transformers.append(transformer)
 
+        is_complete = len(indices) == max(len(field_types), len(field_names))
         if all(transformer is None for transformer in transformers):
-            if len(indices) == len(field_types):
+            if is_complete:
                 return source
             else:
                 return SelectorDataSource(source, indices)
         else:
-            if len(indices) == len(field_types):
+            if is_complete:
                 return TransformerDataSource(source, transformers)
             else:
                 return SelectorTransformerDataSource(source, indices, transformers)
diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index 68032a2..4f1178e 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -147,7 +147,7 @@ class PostgreSQLContext(BaseContext):
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
         )
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = self._get_field_order(table, field_types, field_names)
         async for batch in record_generator.batches():
             result = await self.native_connection.copy_records_to_table(
                 schema_name=table.name.scope_id,
diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 78bacdb..d842ccd 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -129,7 +129,7 @@ class RedshiftContext(BaseContext):
         field_types: tuple[type, ...],
         field_names: Optional[tuple[str, ...]] = None,
     ) -> None:
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = self._get_field_order(table, field_types, field_names)
         columns = [col.name for col in table.get_columns(order)]
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
-- 
2.43.0


From b540d78a7e39d5d6dfa8273301dce5a6abf46c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:23 +0000
Subject: [PATCH 39/85] fix: update exactly the supplied columns of the record
 with the given key

---
 pysqlsync/base.py                         | 24 ++++++++++++++++++-----
 pysqlsync/dialect/mysql/generator.py      |  2 +-
 pysqlsync/dialect/postgresql/generator.py | 10 ++++++++--
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 435c39c..1911565 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -423,7 +423,19 @@ class BaseGenerator(abc.ABC):
         statements.append(";")
         return "\n".join(statements)
 
-    def _get_merge_preamble(self, table: Table, columns: list[Column]) -> list[str]:
+    def _get_upsert_columns(self, table: Table, columns: list[Column]) -> list[Column]:
+        """
+        Columns whose value identifies an existing record to update.
+
+        These are the columns of the primary key, or unique columns if no primary key is supplied.
+        """
+
+        primary = [col for col in columns if table.is_primary_column(col.name)]
+        return primary or [col for col in columns if table.is_unique_column(col)]
+
+    def _get_merge_preamble(
+        self, table: Table, columns: list[Column], match_columns: list[Column]
+    ) -> list[str]:
         "Builds the match condition of a SQL MERGE statement."
 
         statements: list[str] = []
@@ -435,7 +447,6 @@ class BaseGenerator(abc.ABC):
         )
         statements.append(f"USING (VALUES ({value_list})) source({column_list})")
 
-        match_columns = [column for column in columns if table.is_lookup_column(column)]
         if match_columns:
             match_condition = " OR ".join(
                 f"target.{column.name} = source.{column.name}"
@@ -455,7 +466,8 @@ class BaseGenerator(abc.ABC):
         """
 
         columns = [column for column in table.get_columns(order) if not column.identity]
-        statements = self._get_merge_preamble(table, columns)
+        match_columns = [column for column in columns if table.is_lookup_column(column)]
+        statements = self._get_merge_preamble(table, columns, match_columns)
 
         statements.append("WHEN NOT MATCHED THEN")
         column_list = ", ".join(str(column.name) for column in columns)
@@ -475,11 +487,13 @@ class BaseGenerator(abc.ABC):
         """
 
         columns = [column for column in table.get_columns(order)]
-        statements: list[str] = self._get_merge_preamble(table, columns)
+        match_columns = self._get_upsert_columns(table, columns)
+        statements = self._get_merge_preamble(table, columns, match_columns)
 
         insert_columns = [column for column in columns if not column.identity]
+        match_names = [column.name for column in match_columns]
         update_columns = [
-            column for column in insert_columns if not table.is_lookup_column(column)
+            column for column in insert_columns if column.name not in match_names
         ]
         if update_columns:
             statements.append("WHEN MATCHED THEN")
diff --git a/pysqlsync/dialect/mysql/generator.py b/pysqlsync/dialect/mysql/generator.py
index 93b74ce..8f09a3a 100644
--- a/pysqlsync/dialect/mysql/generator.py
+++ b/pysqlsync/dialect/mysql/generator.py
@@ -107,7 +107,7 @@ class MySQLGenerator(BaseGenerator):
         columns = [column for column in table.get_columns(order)]
         statements.append(_field_list([column.name for column in columns]))
         statements.append("ON DUPLICATE KEY UPDATE")
-        value_columns = table.get_value_columns()
+        value_columns = table.get_value_columns(order)
         if value_columns:
             defs = [_field_update(column.name) for column in value_columns]
         else:
diff --git a/pysqlsync/dialect/postgresql/generator.py b/pysqlsync/dialect/postgresql/generator.py
index 4baa8a0..dfd7948 100644
--- a/pysqlsync/dialect/postgresql/generator.py
+++ b/pysqlsync/dialect/postgresql/generator.py
@@ -99,8 +99,14 @@ class PostgreSQLGenerator(BaseGenerator):
             self.placeholder(index) for index, _ in enumerate(columns, start=1)
         )
         statements.append(f"({column_list}) VALUES ({value_list})")
-        value_columns = table.get_value_columns()
-        keys = ", ".join(str(key) for key in table.primary_key)
+        # PostgreSQL permits a single constraint as the conflict target
+        match_columns = self._get_upsert_columns(table, columns)[:1]
+        value_columns = [
+            column
+            for column in table.get_value_columns(order)
+            if column not in match_columns
+        ]
+        keys = ", ".join(str(column.name) for column in match_columns)
         if value_columns:
             statements.append(f"ON CONFLICT ({keys}) DO UPDATE SET")
             defs = [
-- 
2.43.0


From b879305cb8880a74128e20a422fa40c0536c2577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:26 +0000
Subject: [PATCH 40/85] fix: pass values of objects in the order of columns of
 the statement

---
 pysqlsync/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 1911565..43f472d 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -528,13 +528,15 @@ class BaseGenerator(abc.ABC):
         "Returns a SQL statement to insert or ignore records in a database table."
 
         table_object = self.state.get_table(self.get_qualified_id(ClassRef(table)))
-        return self.get_table_insert_stmt(table_object)
+        order = tuple(field.name for field in dataclasses.fields(table))
+        return self.get_table_insert_stmt(table_object, order)
 
     def get_dataclass_upsert_stmt(self, table: type[DataclassInstance]) -> str:
         "Returns a SQL statement to insert or update records in a database table."
 
         table_object = self.state.get_table(self.get_qualified_id(ClassRef(table)))
-        return self.get_table_upsert_stmt(table_object)
+        order = tuple(field.name for field in dataclasses.fields(table))
+        return self.get_table_upsert_stmt(table_object, order)
 
     def get_dataclass_delete_stmt(self, table: type[DataclassInstance]) -> str:
         "Returns a SQL statement to delete records from a database table."
-- 
2.43.0


From 34f8601c61f5f3507b7ec2f2880e5c0b2139c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 41/85] fix: insert references to a table whose key is a string
 as they are

---
 pysqlsync/base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 43f472d..807b7b7 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -56,9 +56,11 @@ from .formation.object_types import (
 from .formation.py_to_sql import ArrayMode, DataclassConverter, EnumMode, StructMode
 from .model.data_types import (
     SqlArrayType,
+    SqlFixedCharacterType,
     SqlIntegerType,
     SqlJsonType,
     SqlUserDefinedType,
+    SqlUuidType,
     SqlVariableCharacterType,
 )
 from .model.id_types import LocalId, QualifiedId, SupportsQualifiedId
@@ -1452,7 +1454,14 @@ class BaseContext(abc.ABC):
         relation = self.connection.generator.state.get_referenced_table(
             table.name, column.name
         )
-        return relation if relation.is_lookup_table() else None
+        if not relation.is_lookup_table():
+            return None
+        key_type = relation.get_primary_column().data_type
+        if isinstance(
+            key_type, (SqlFixedCharacterType, SqlVariableCharacterType, SqlUuidType)
+        ):
+            return None  # references are natural keys
+        return relation
 
     async def delete_rows(
         self, table: Table, key_type: type, key_values: Iterable[Any]
-- 
2.43.0


From c98dec3be019cb61f5c3e86bb46b6bc5c1747ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:33 +0000
Subject: [PATCH 42/85] fix: convert keys of objects to delete

---
 pysqlsync/base.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 807b7b7..a9dfd31 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -1205,7 +1205,22 @@ class BaseContext(abc.ABC):
 
         generator = self.connection.generator
         statement = generator.get_dataclass_delete_stmt(table)
-        await self.execute_all(statement, ((key,) for key in keys))
+        column = self.get_table(table).get_primary_column()
+        key_type = get_field_properties(
+            next(
+                field.type
+                for field in dataclasses.fields(table)
+                if field.name == column.name.local_id
+            )
+        ).plain_type
+        transformer = generator.get_value_transformer(
+            column, typing.cast(type, key_type)
+        )
+        if transformer is not None:
+            records = ((transformer(key),) for key in keys)
+        else:
+            records = ((key,) for key in keys)
+        await self.execute_all(statement, records)
 
     async def insert_rows(
         self,
-- 
2.43.0


From 6b15fb357b158a261aa12299626391660b0719c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:25 +0000
Subject: [PATCH 43/85] fix: convert keys of referenced entities in objects

---
 pysqlsync/base.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index a9dfd31..beaefd0 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -34,6 +34,7 @@ from typing import (
 
 from strong_typing.inspection import (
     DataclassInstance,
+    evaluate_member_type,
     is_dataclass_instance,
     is_dataclass_type,
     is_type_enum,
@@ -43,7 +44,7 @@ from strong_typing.inspection import (
 from strong_typing.name import python_type_to_str
 
 from .connection import ConnectionParameters
-from .formation.inspection import get_entity_types
+from .formation.inspection import get_entity_types, reference_to_key
 from .formation.mutation import Mutator, MutatorOptions
 from .formation.object_types import (
     Catalog,
@@ -143,6 +144,13 @@ def _to_composite(value: Any) -> Any:
         return value
 
 
+def _get_stored_type(field_type: Any, cls: type[DataclassInstance]) -> type:
+    "Type of the values that objects of a class hold in a field. References to an entity are stored as its key."
+
+    evaluated_type = evaluate_member_type(field_type, cls)
+    return typing.cast(type, reference_to_key(evaluated_type, cls))
+
+
 class ClassRef:
     "Represents a reference to a Python class in a Python module."
 
@@ -583,7 +591,9 @@ class BaseGenerator(abc.ABC):
 
         return tuple(
             self.get_field_extractor(
-                table.columns[field.name], field.name, typing.cast(type, field.type)
+                table.columns[field.name],
+                field.name,
+                _get_stored_type(field.type, entity_type),
             )
             for field in dataclasses.fields(entity_type)
             if not (skip_identity and table.columns[field.name].identity)
@@ -1178,7 +1188,9 @@ class BaseContext(abc.ABC):
             if skip_identity and column.identity:
                 continue
 
-            plain_type = get_field_properties(field.type).plain_type
+            plain_type = get_field_properties(
+                _get_stored_type(field.type, entity_type)
+            ).plain_type
             relation = self._get_lookup_table(table, column)
             if relation is not None and (
                 is_type_enum(plain_type) or is_type_union(plain_type)
@@ -1206,12 +1218,13 @@ class BaseContext(abc.ABC):
         generator = self.connection.generator
         statement = generator.get_dataclass_delete_stmt(table)
         column = self.get_table(table).get_primary_column()
+        key_field = next(
+            field
+            for field in dataclasses.fields(table)
+            if field.name == column.name.local_id
+        )
         key_type = get_field_properties(
-            next(
-                field.type
-                for field in dataclasses.fields(table)
-                if field.name == column.name.local_id
-            )
+            _get_stored_type(key_field.type, table)
         ).plain_type
         transformer = generator.get_value_transformer(
             column, typing.cast(type, key_type)
-- 
2.43.0


From 12c1dbc95168de3701e33e59917dcbc5ec861c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:40 +0000
Subject: [PATCH 44/85] fix: delimit and escape fields in the stream that
 Redshift copies

---
 pysqlsync/dialect/redshift/connection.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index d842ccd..abcd9bc 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -3,7 +3,7 @@ import logging
 import re
 import typing
 from io import BytesIO
-from typing import Iterable, Optional, TypeVar
+from typing import Any, Iterable, Optional, TypeVar
 
 import redshift_connector
 from strong_typing.inspection import DataclassInstance, is_dataclass_type
@@ -30,6 +30,18 @@ LOGGER = logging.getLogger("pysqlsync.redshift")
 
 redshift_connector.paramstyle = "numeric"
 
+COPY_ESCAPES = str.maketrans(
+    {"\\": "\\\\", "|": "\\|", "\n": "\\\n", "\r": "\\\r"}
+)
+
+
+def _copy_field(value: Any) -> bytes:
+    "Writes a value as a field of the text format of the command `COPY` with option `ESCAPE`."
+
+    if value is None:
+        return b"\\N"
+    return str(value).translate(COPY_ESCAPES).encode("utf-8")
+
 
 class RedshiftConnection(BaseConnection):
     native: redshift_connector.Connection
@@ -153,11 +165,11 @@ class RedshiftContext(BaseContext):
         records: Iterable[RecordType],
     ) -> None:
         column_list = ", ".join(str(column) for column in columns)
-        copy_query = f"COPY {table_name} ({column_list}) FROM STDIN"
+        copy_query = f"COPY {table_name} ({column_list}) FROM STDIN ESCAPE"
 
         with BytesIO() as f:
             for record in records:
-                f.write(b"|".join(str(value).encode("utf-8") for value in record))
+                f.write(b"|".join(_copy_field(value) for value in record))
                 f.write(b"\n")
             stream_data = f.getvalue()
 
-- 
2.43.0


From 20c1cc63603fb638d25da390c94c370a4ed1f92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:40 +0000
Subject: [PATCH 45/85] fix: insert objects in batches with lookup table keys
 on Redshift

---
 pysqlsync/dialect/redshift/connection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index abcd9bc..c6b56db 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -118,8 +118,7 @@ class RedshiftContext(BaseContext):
                 return resultset_unwrap_tuple(signature, records)
 
     @override
-    @thread_dispatch
-    def insert_data(self, table: type[D], data: Iterable[D]) -> None:
+    async def insert_data(self, table: type[D], data: Iterable[D]) -> None:
         if not is_dataclass_type(table):
             raise TypeError(f"expected dataclass type, got: {table}")
         generator = self.connection.generator
@@ -129,8 +128,9 @@ class RedshiftContext(BaseContext):
             for field in dataclasses.fields(table)
             if not is_identity_type(field.type)
         ]
-        records = generator.get_dataclasses_as_records(table, data, skip_identity=True)
-        self._insert_copy_stream(table_name, columns, records)
+        source = self._get_object_source(table, data, skip_identity=True)
+        async for batch in source.batches():
+            await self._insert_copy_stream_async(table_name, columns, batch)
 
     @override
     async def _insert_rows(
-- 
2.43.0


From 0d8f49769a623e587f65927761f46c143e384b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:27 +0000
Subject: [PATCH 46/85] fix: report errors in discovery rather than assume lack
 of support

---
 pysqlsync/dialect/mssql/discovery.py | 4 ++++
 pysqlsync/dialect/mysql/discovery.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pysqlsync/dialect/mssql/discovery.py b/pysqlsync/dialect/mssql/discovery.py
index 8d43b71..84ca161 100644
--- a/pysqlsync/dialect/mssql/discovery.py
+++ b/pysqlsync/dialect/mssql/discovery.py
@@ -42,6 +42,10 @@ def to_default_expr(expr: str) -> str:
 
 
 class MSSQLExplorer(AnsiExplorer):
+    # available in all versions; a query that fails must not be taken for lack of support
+    _has_constraints = True
+    _has_column_extended_info = True
+
     def __init__(self, conn: BaseContext) -> None:
         super().__init__(
             conn,
diff --git a/pysqlsync/dialect/mysql/discovery.py b/pysqlsync/dialect/mysql/discovery.py
index 4ec3da9..d93a859 100644
--- a/pysqlsync/dialect/mysql/discovery.py
+++ b/pysqlsync/dialect/mysql/discovery.py
@@ -55,6 +55,10 @@ def to_default_expr(col: MySQLColumnMeta) -> Optional[str]:
 
 
 class MySQLExplorer(AnsiExplorer):
+    # available in all versions; a query that fails must not be taken for lack of support
+    _has_constraints = True
+    _has_column_extended_info = True
+
     def __init__(self, conn: BaseContext) -> None:
         super().__init__(
             conn,
-- 
2.43.0


From 9950f1f5d13b580806ef3f5270fda3a67d3f1597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:27 +0000
Subject: [PATCH 47/85] fix: retain generator state when objects fail to be
 created or dropped

---
 pysqlsync/base.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index beaefd0..f9417c3 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -1134,17 +1134,27 @@ class BaseContext(abc.ABC):
         "Creates tables, structs, enumerations, constraints, etc. corresponding to entity class definitions."
 
         generator = self.connection.generator
+        state = generator.state
         statement = generator.create(tables=tables)
         if statement:
-            await self.execute(statement)
+            try:
+                await self.execute(statement)
+            except Exception:
+                generator.state = state
+                raise
 
     async def drop_objects(self) -> None:
         "Drops all objects currently synced with the generator. (This function is mainly for unit tests.)"
 
         generator = self.connection.generator
+        state = generator.state
         statement = generator.drop()
         if statement:
-            await self.execute(statement)
+            try:
+                await self.execute(statement)
+            except Exception:
+                generator.state = state
+                raise
 
     async def insert_data(self, table: type[D], data: Iterable[D]) -> None:
         "Inserts data in the database table corresponding to the dataclass type."
-- 
2.43.0


From 7849f89d0c16ae7fc2b259781c801740937dcb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:27 +0000
Subject: [PATCH 48/85] fix: name the statement when rows fail to be inserted,
 updated or deleted

---
 pysqlsync/base.py                          | 20 ++++++++--
 pysqlsync/dialect/postgresql/connection.py | 46 ++++++++++++++--------
 pysqlsync/dialect/redshift/connection.py   |  2 +
 3 files changed, 49 insertions(+), 19 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index f9417c3..3879076 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -1046,6 +1046,20 @@ class BaseContext(abc.ABC):
 
         ...
 
+    async def _execute_typed_source(
+        self,
+        statement: str,
+        source: DataSource,
+        table: Table,
+        order: Optional[tuple[str, ...]] = None,
+    ) -> None:
+        try:
+            await self._execute_typed(statement, source, table, order)
+        except QueryException:
+            raise
+        except Exception as e:
+            raise QueryException(statement) from e
+
     async def _execute_typed(
         self,
         statement: str,
@@ -1304,7 +1318,7 @@ class BaseContext(abc.ABC):
         )
         order = self._get_field_order(table, field_types, field_names)
         statement = self.connection.generator.get_table_insert_stmt(table, order)
-        await self._execute_typed(statement, record_generator, table, order)
+        await self._execute_typed_source(statement, record_generator, table, order)
 
     async def upsert_rows(
         self,
@@ -1363,7 +1377,7 @@ class BaseContext(abc.ABC):
         order = self._get_field_order(table, field_types, field_names)
         statement = self.connection.generator.get_table_upsert_stmt(table, order)
 
-        await self._execute_typed(statement, record_generator, table, order)
+        await self._execute_typed_source(statement, record_generator, table, order)
 
     def _get_field_order(
         self,
@@ -1548,7 +1562,7 @@ class BaseContext(abc.ABC):
 
         statement = generator.get_table_delete_stmt(table)
         order = (table.get_primary_column().name.local_id,)
-        await self._execute_typed(statement, source, table, order)
+        await self._execute_typed_source(statement, source, table, order)
 
 
 def _module_or_list(
diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index 4f1178e..55fcef0 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -7,9 +7,16 @@ from typing import Iterable, Optional, TypeVar, Union
 import asyncpg
 from strong_typing.inspection import DataclassInstance, is_dataclass_type
 
-from pysqlsync.base import BaseConnection, BaseContext, ClassRef, DataSource
+from pysqlsync.base import (
+    BaseConnection,
+    BaseContext,
+    ClassRef,
+    DataSource,
+    QueryException,
+)
 from pysqlsync.connection import ConnectionSSLMode, create_context
 from pysqlsync.formation.object_types import Table
+from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 from pysqlsync.model.properties import is_identity_type
 from pysqlsync.resultset import resultset_unwrap_dict, resultset_unwrap_tuple
 from pysqlsync.util.typing import override
@@ -126,14 +133,7 @@ class PostgreSQLContext(BaseContext):
             if not is_identity_type(field.type)
         )
         source = self._get_object_source(table, data, skip_identity=True)
-        async for batch in source.batches():
-            result = await self.native_connection.copy_records_to_table(
-                schema_name=table_name.scope_id,
-                table_name=table_name.local_id,
-                columns=columns,
-                records=batch,
-            )
-            LOGGER.debug(result)
+        await self._copy_records(table_name, columns, source)
 
     @override
     async def _insert_rows(
@@ -148,11 +148,25 @@ class PostgreSQLContext(BaseContext):
             table, source, field_types=field_types, field_names=field_names
         )
         order = self._get_field_order(table, field_types, field_names)
-        async for batch in record_generator.batches():
-            result = await self.native_connection.copy_records_to_table(
-                schema_name=table.name.scope_id,
-                table_name=table.name.local_id,
-                columns=[str(col.name.local_id) for col in table.get_columns(order)],
-                records=batch,
-            )
+        columns = tuple(str(col.name.local_id) for col in table.get_columns(order))
+        await self._copy_records(table.name, columns, record_generator)
+
+    async def _copy_records(
+        self, table_name: SupportsQualifiedId, columns: tuple[str, ...], source: DataSource
+    ) -> None:
+        "Copies records to a table in batches."
+
+        column_list = ", ".join(str(LocalId(column)) for column in columns)
+        async for batch in source.batches():
+            try:
+                result = await self.native_connection.copy_records_to_table(
+                    schema_name=table_name.scope_id,
+                    table_name=table_name.local_id,
+                    columns=columns,
+                    records=batch,
+                )
+            except Exception as e:
+                raise QueryException(
+                    f"COPY {table_name} ({column_list}) FROM STDIN"
+                ) from e
             LOGGER.debug(result)
diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index c6b56db..90a7191 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -176,5 +176,7 @@ class RedshiftContext(BaseContext):
         cursor = self.native_connection.cursor()
         try:
             cursor.execute(copy_query, stream=BytesIO(stream_data))
+        except Exception as e:
+            raise QueryException(copy_query) from e
         finally:
             cursor.close()
-- 
2.43.0


From b11e6456d8cd7e94e696ea067601b8a559655680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:55 +0000
Subject: [PATCH 49/85] fix: carry on with interrupted data migration instead
 of dropping values

---
 pysqlsync/formation/mutation.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 007ea58..ae4c94c 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -10,7 +10,7 @@ from ..model.data_types import (
     constant,
     quote,
 )
-from ..model.id_types import SupportsName
+from ..model.id_types import LocalId, SupportsName
 from .object_types import (
     Catalog,
     Column,
@@ -23,6 +23,7 @@ from .object_types import (
     StructType,
     Table,
     TableFormationError,
+    deleted,
     join_or_none,
 )
 
@@ -170,13 +171,39 @@ class Mutator:
         common_columns = list(source.columns.intersection(target.columns))
         drop_columns = list(source.columns.difference(target.columns))
         migrated_columns: list[tuple[Column, Column, Column]] = []
+        resumed_names: list[LocalId] = []
 
         # accumulate object creation statements
         create_stmts: list[str] = []
 
+        # carry on with data migration that has been interrupted
+        for target_column in target.columns.values():
+            former_name = deleted(target_column.name.local_id)
+            former_column = source.columns.get(former_name)
+            if former_column is None or former_name in target.columns:
+                continue
+            source_column = copy.copy(former_column)
+            source_column.name = target_column.name
+            if not self.is_column_migrated(source_column, target_column):
+                raise TableFormationError(
+                    f"migration of column {target_column.name} has been interrupted",
+                    target.name,
+                )
+            interim_column = source.columns.get(target_column.name.local_id)
+            if interim_column is None:
+                interim_column = copy.copy(target_column)
+                interim_column.nullable = True
+                create_stmts.append(interim_column.create_stmt())
+            migrated_columns.append((source_column, interim_column, target_column))
+            resumed_names.append(target_column.name)
+            drop_columns.remove(former_column)
+        create_columns = [c for c in create_columns if c.name not in resumed_names]
+
         # rename conflicting columns
         try:
             for source_column, target_column in common_columns:
+                if target_column.name in resumed_names:
+                    continue
                 if self.is_column_migrated(source_column, target_column):
                     statements.append(
                         source.alter_table_stmt([source_column.soft_drop_stmt()])
-- 
2.43.0


From 0a8f5debcd501fe31049b992c7cd3eb2884f59f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 50/85] fix: discover and drop only objects of the current
 schema on Oracle

---
 pysqlsync/dialect/oracle/connection.py |  3 ++-
 pysqlsync/dialect/oracle/discovery.py  | 10 +++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/dialect/oracle/connection.py b/pysqlsync/dialect/oracle/connection.py
index e2032f5..3a0bf41 100644
--- a/pysqlsync/dialect/oracle/connection.py
+++ b/pysqlsync/dialect/oracle/connection.py
@@ -149,7 +149,8 @@ class OracleContext(BaseContext):
         )
         tables = await self.query_all(
             str,
-            f"SELECT table_name FROM dba_tables WHERE {condition}",
+            "SELECT table_name FROM dba_tables\n"
+            f"WHERE owner = {self.connection.generator.get_current_schema_stmt()} AND {condition}",
         )
         statement = "\n".join(
             f"DROP TABLE {LocalId(table)} CASCADE CONSTRAINTS PURGE;"
diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index 7ad5f87..c079ea1 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -113,14 +113,18 @@ class OracleExplorer(Explorer):
     ) -> bool:
         raise NotImplementedError()
 
+    @property
+    def _current_owner(self) -> str:
+        return self.conn.connection.generator.get_current_schema_stmt()
+
     async def get_table(self, table_id: SupportsQualifiedId) -> Table:
-        condition = f"t.table_name = {quote(table_id.local_id)}"
+        condition = f"t.owner = {self._current_owner} AND t.table_name = {quote(table_id.local_id)}"
 
         table_comments = await self.conn.query_all(
             str,
             "SELECT tc.comments\n"
             "FROM dba_tables t JOIN dba_tab_comments tc ON t.owner = tc.owner AND t.table_name = tc.table_name\n"
-            f"WHERE t.owner != 'SYS' AND {condition}\n AND t.tablespace_name != 'SYSAUX'\n"
+            f"WHERE {condition}\n AND t.tablespace_name != 'SYSAUX'\n"
             "    AND t.status = 'VALID' AND t.temporary = 'N' AND t.secondary = 'N' AND t.dropped = 'NO' AND t.read_only = 'NO'",
         )
 
@@ -256,7 +260,7 @@ class OracleExplorer(Explorer):
         table_names = await self.conn.query_all(
             str,
             "SELECT table_name FROM dba_tables\n"
-            f"WHERE owner != 'SYS' AND {condition}\n AND table_name NOT LIKE '%$%' AND tablespace_name != 'SYSAUX'\n"
+            f"WHERE owner = {self._current_owner} AND {condition}\n AND table_name NOT LIKE '%$%' AND tablespace_name != 'SYSAUX'\n"
             "    AND status = 'VALID' AND temporary = 'N' AND secondary = 'N' AND dropped = 'NO' AND read_only = 'NO'",
         )
 
-- 
2.43.0


From cbe5799e37c65bc390640e4331f06027a92f6fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 51/85] fix: name the constraint of a lookup table after its
 namespace, too

---
 pysqlsync/formation/py_to_sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 3004972..ef72ff1 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -984,7 +984,7 @@ class DataclassConverter:
             )
             constraints.append(
                 UniqueConstraint(
-                    LocalId(f"uq_{enum_table_name}"),
+                    LocalId(f"uq_{self.create_qualified_prefix(enum_type)}"),
                     (LocalId("value"),),
                 )
             )
-- 
2.43.0


From 7deee1cbbf34a4f722a97500bcf4d7b5ac379717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 52/85] fix: describe types, arrays and key columns as they are
 on PostgreSQL

---
 pysqlsync/dialect/postgresql/data_types.py | 16 +++++++++++-
 pysqlsync/dialect/postgresql/discovery.py  | 20 ++++++++++-----
 pysqlsync/dialect/postgresql/generator.py  |  3 ++-
 pysqlsync/formation/data_types.py          | 30 ++++++++++++++--------
 4 files changed, 50 insertions(+), 19 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/data_types.py b/pysqlsync/dialect/postgresql/data_types.py
index b2ed77e..e4ccb27 100644
--- a/pysqlsync/dialect/postgresql/data_types.py
+++ b/pysqlsync/dialect/postgresql/data_types.py
@@ -1,6 +1,20 @@
-from pysqlsync.model.data_types import SqlJsonType
+from typing import Any
+
+from strong_typing.auxiliary import Storage
+
+from pysqlsync.model.data_types import SqlJsonType, SqlVariableBinaryType
 
 
 class PostgreSQLJsonType(SqlJsonType):
     def __str__(self) -> str:
         return "jsonb"
+
+
+class PostgreSQLVariableBinaryType(SqlVariableBinaryType):
+    def __str__(self) -> str:
+        return "bytea"
+
+    def parse_meta(self, meta: Any) -> None:
+        # type has no maximum length
+        if not isinstance(meta, Storage):
+            super().parse_meta(meta)
diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 3869dd6..e988257 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -24,7 +24,7 @@ from pysqlsync.model.data_types import (
 )
 from pysqlsync.model.id_types import GlobalId, LocalId, QualifiedId, SupportsQualifiedId
 
-from .data_types import PostgreSQLJsonType
+from .data_types import PostgreSQLJsonType, PostgreSQLVariableBinaryType
 from .object_types import PostgreSQLObjectFactory
 
 
@@ -104,6 +104,7 @@ class PostgreSQLMemberMeta:
     type_schema: str
     type_name: str
     type_def: str
+    is_array: bool
     description: str
 
 
@@ -150,6 +151,7 @@ class PostgreSQLExplorer(Explorer):
         self.discovery = SqlDiscovery(
             SqlDiscoveryOptions(
                 substitutions={
+                    "bytea": PostgreSQLVariableBinaryType(),
                     "jsonb": PostgreSQLJsonType(),
                     "inet": SqlUserDefinedType(GlobalId("inet")),
                 }
@@ -250,9 +252,9 @@ class PostgreSQLExplorer(Explorer):
             "SELECT\n"
             "    att.attname AS member_name,\n"
             "    typ_nsp.nspname AS type_schema,\n"
-            "    typ.typname AS type_name,\n"
             "    CASE WHEN typ.typelem != 0 THEN typ_elem.typname ELSE typ.typname END AS type_name,\n"
             "    pg_catalog.format_type(att.atttypid, att.atttypmod) AS type_def,\n"
+            "    att.attndims != 0 AS is_array,\n"
             "    dsc.description AS description\n"
             "FROM pg_catalog.pg_attribute AS att\n"
             "    INNER JOIN pg_catalog.pg_type AS typ ON att.atttypid = typ.oid\n"
@@ -270,9 +272,11 @@ class PostgreSQLExplorer(Explorer):
             data_type = self.discovery.sql_data_type_from_spec(
                 type_name=mem.type_name,
                 type_schema=mem.type_schema,
-                type_def=mem.type_def,
+                type_def=mem.type_def.removesuffix("[]"),
             )
             data_type = _localize_type(data_type, current_schema)
+            if mem.is_array:
+                data_type = SqlArrayType(data_type)
             members.append(
                 StructMember(
                     LocalId(mem.member_name),
@@ -328,7 +332,7 @@ class PostgreSQLExplorer(Explorer):
             data_type = self.discovery.sql_data_type_from_spec(
                 type_name=col.type_name,
                 type_schema=col.type_schema,
-                type_def=col.type_def,
+                type_def=col.type_def.removesuffix("[]"),
             )
             data_type = _localize_type(data_type, current_schema)
             if col.is_array:
@@ -360,9 +364,10 @@ class PostgreSQLExplorer(Explorer):
             "    con.conrelid AS pkeyrel,\n"
             "    tgt.pkeycol,\n"
             "    con.confrelid AS fkeyrel,\n"
-            "    tgt.fkeycol\n"
+            "    tgt.fkeycol,\n"
+            "    tgt.keypos\n"
             "FROM pg_catalog.pg_constraint AS con\n"
-            "    CROSS JOIN UNNEST(con.conkey, con.confkey) AS tgt(pkeycol, fkeycol)\n"
+            "    CROSS JOIN UNNEST(con.conkey, con.confkey) WITH ORDINALITY AS tgt(pkeycol, fkeycol, keypos)\n"
             "    INNER JOIN pg_catalog.pg_class AS cls ON con.conrelid = cls.oid\n"
             "    INNER JOIN pg_catalog.pg_namespace AS nsp ON cls.relnamespace = nsp.oid\n"
             f"WHERE {self._where_table(table_id)} AND con.contype IN ('p', 'u', 'f')\n"
@@ -370,7 +375,8 @@ class PostgreSQLExplorer(Explorer):
             "    INNER JOIN pg_catalog.pg_attribute AS att_s ON cons.pkeyrel = att_s.attrelid AND cons.pkeycol = att_s.attnum\n"
             "    LEFT JOIN pg_catalog.pg_class AS cls_t ON cons.fkeyrel = cls_t.oid\n"
             "    LEFT JOIN pg_catalog.pg_namespace AS nsp_t ON cls_t.relnamespace = nsp_t.oid\n"
-            "    LEFT JOIN pg_catalog.pg_attribute AS att_t ON cons.fkeyrel = att_t.attrelid AND cons.fkeycol = att_t.attnum",
+            "    LEFT JOIN pg_catalog.pg_attribute AS att_t ON cons.fkeyrel = att_t.attrelid AND cons.fkeycol = att_t.attnum\n"
+            "ORDER BY cons.conname, cons.keypos",
         )
 
         primary: list[LocalId] = []
diff --git a/pysqlsync/dialect/postgresql/generator.py b/pysqlsync/dialect/postgresql/generator.py
index dfd7948..d94c083 100644
--- a/pysqlsync/dialect/postgresql/generator.py
+++ b/pysqlsync/dialect/postgresql/generator.py
@@ -14,7 +14,7 @@ from pysqlsync.formation.py_to_sql import (
 )
 from pysqlsync.util.typing import override
 
-from .data_types import PostgreSQLJsonType
+from .data_types import PostgreSQLJsonType, PostgreSQLVariableBinaryType
 from .mutation import PostgreSQLMutator
 from .object_types import PostgreSQLObjectFactory
 
@@ -44,6 +44,7 @@ class PostgreSQLGenerator(BaseGenerator):
                 foreign_constraints=options.foreign_constraints,
                 initialize_tables=options.initialize_tables,
                 substitutions={
+                    bytes: PostgreSQLVariableBinaryType(),
                     JsonType: PostgreSQLJsonType(),
                 },
                 factory=self.factory,
diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index aae34e5..797aebc 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -14,6 +14,7 @@ from ..model.data_types import (
     SqlFixedCharacterType,
     SqlFloatType,
     SqlIntegerType,
+    SqlIntervalType,
     SqlJsonType,
     SqlRealType,
     SqlTimestampType,
@@ -63,7 +64,7 @@ class SqlDiscovery:
             return SqlFloatType()
         elif name in ["timestamp", "timestamp without time zone"]:
             return SqlTimestampType(None, False)
-        elif name == "timestamp with time zone":
+        elif name in ["timestamp with time zone", "timestamptz"]:
             return SqlTimestampType(None, True)
         elif name == "datetime":
             return SqlTimestampType()
@@ -71,8 +72,10 @@ class SqlDiscovery:
             return SqlDateType()
         elif name in ["time", "time without time zone"]:
             return SqlTimeType(None, False)
-        elif name == "time with time zone":
+        elif name in ["time with time zone", "timetz"]:
             return SqlTimeType(None, True)
+        elif name == "interval":
+            return SqlIntervalType()
         elif name in ["char", "character"]:
             return SqlFixedCharacterType()
         elif name in ["varchar", "character varying", "text"]:
@@ -109,6 +112,12 @@ class SqlDiscovery:
             else:
                 return SqlTimestampType(int(m.group(1)), False)
 
+        m = re.fullmatch(
+            r"^time[(](\d+)[)]\s*(with(?:out)? time zone)?$", type_def, re.IGNORECASE
+        )
+        if m is not None:
+            return SqlTimeType(int(m.group(1)), m.group(2) == "with time zone")
+
         m = re.fullmatch(r"^char(?:acter)?[(](\d+)[)]$", type_def, re.IGNORECASE)
         if m is not None:
             return SqlFixedCharacterType(int(m.group(1)))
@@ -154,10 +163,11 @@ class SqlDiscovery:
     ) -> SqlDataType:
         "Determines the column type from SQL column attribute data extracted from the information schema table."
 
-        sql_type: Optional[SqlDataType] = None
-        if type_schema is None or type_schema == "pg_catalog" or type_schema == "SYS":
-            sql_type = copy.copy(self.options.substitutions.get(type_name))
+        if type_schema is not None and type_schema not in ["pg_catalog", "SYS"]:
+            # may share its name with a built-in type
+            return SqlUserDefinedType(QualifiedId(type_schema, type_name))
 
+        sql_type = copy.copy(self.options.substitutions.get(type_name))
         if sql_type is None and type_def is not None:
             sql_type = self.sql_data_type_from_def(type_def)
 
@@ -179,11 +189,11 @@ class SqlDiscovery:
         elif isinstance(sql_type, SqlFloatType):
             if numeric_precision is not None:
                 sql_type.precision = numeric_precision  # precision in base 2
-        elif isinstance(sql_type, SqlTimestampType):
-            if datetime_precision is not None and datetime_precision > 0:
-                sql_type.precision = datetime_precision
-        elif isinstance(sql_type, SqlTimeType):
-            if datetime_precision is not None and datetime_precision > 0:
+        elif isinstance(sql_type, (SqlTimestampType, SqlTimeType)):
+            # zero is the default unless type states otherwise
+            if datetime_precision is not None and (
+                datetime_precision > 0 or sql_type.precision is not None
+            ):
                 sql_type.precision = datetime_precision
         elif isinstance(sql_type, SqlFixedCharacterType):
             if character_maximum_length is not None:
-- 
2.43.0


From 3ff5f8a44dadea2e8a9af4cf9183f62a5a293e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 53/85] fix: describe binary and time types and references as
 they are on Microsoft SQL Server

---
 pysqlsync/dialect/mssql/data_types.py | 15 +++++--
 pysqlsync/dialect/mssql/discovery.py  | 61 ++++++++++++++++++++++++++-
 pysqlsync/dialect/mssql/generator.py  |  2 +
 3 files changed, 73 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/dialect/mssql/data_types.py b/pysqlsync/dialect/mssql/data_types.py
index 6b2771c..1a12a3c 100644
--- a/pysqlsync/dialect/mssql/data_types.py
+++ b/pysqlsync/dialect/mssql/data_types.py
@@ -53,12 +53,21 @@ class MSSQLVariableCharacterType(SqlVariableCharacterType):
             return f"{chartype}(max)"
 
 
+class MSSQLVariableBinaryType(SqlVariableBinaryType):
+    def __str__(self) -> str:
+        if self.storage is not None and self.storage <= 8000:
+            return f"varbinary({self.storage})"
+        else:
+            return "varbinary(max)"
+
+
 class MSSQLDateTimeType(SqlTimestampType):
-    def __init__(self) -> None:
-        self.precision = 7
+    def __init__(self, precision: Optional[int] = None) -> None:
+        # maximum precision is the default
+        super().__init__(precision if precision is not None else 7)
 
     def __str__(self) -> str:
-        return "datetime2"
+        return "datetime2" if self.precision == 7 else f"datetime2({self.precision})"
 
     def parse_meta(self, meta: Any) -> None:
         # columns are always created with maximum precision
diff --git a/pysqlsync/dialect/mssql/discovery.py b/pysqlsync/dialect/mssql/discovery.py
index 84ca161..db8e5cb 100644
--- a/pysqlsync/dialect/mssql/discovery.py
+++ b/pysqlsync/dialect/mssql/discovery.py
@@ -1,23 +1,40 @@
 import re
+from dataclasses import dataclass
 from typing import Optional
 
 from pysqlsync.base import BaseContext
+from pysqlsync.formation.constraints import ForeignFactory
 from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
 from pysqlsync.formation.discovery import AnsiExplorer
-from pysqlsync.formation.object_types import Column, Namespace, Table
+from pysqlsync.formation.object_types import (
+    Column,
+    ForeignConstraint,
+    Namespace,
+    Table,
+)
 from pysqlsync.model.data_types import SqlDoubleType, quote
-from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
+from pysqlsync.model.id_types import LocalId, QualifiedId, SupportsQualifiedId
 
 from .data_types import (
     MSSQLBooleanType,
     MSSQLDateTimeType,
     MSSQLEncoding,
     MSSQLTimeType,
+    MSSQLVariableBinaryType,
     MSSQLVariableCharacterType,
 )
 from .object_types import MSSQLObjectFactory
 
 
+@dataclass
+class MSSQLForeignMeta:
+    constraint_name: str
+    source_column: str
+    target_schema: str
+    target_table: str
+    target_column: str
+
+
 def to_default_expr(expr: str) -> str:
     "Removes parentheses that enclose the default value of a column as reported by Microsoft SQL Server."
 
@@ -62,6 +79,7 @@ class MSSQLExplorer(AnsiExplorer):
                         ),
                         "varchar": MSSQLVariableCharacterType(),
                         "text": MSSQLVariableCharacterType(),
+                        "varbinary": MSSQLVariableBinaryType(),
                     }
                 )
             ),
@@ -96,6 +114,45 @@ class MSSQLExplorer(AnsiExplorer):
 
         return columns
 
+    async def get_referential_constraints(
+        self, table_id: SupportsQualifiedId
+    ) -> list[ForeignConstraint]:
+        # `information_schema` does not tell which column refers to which
+        constraint_meta = await self.conn.query_all(
+            MSSQLForeignMeta,
+            "SELECT\n"
+            "    fk.name AS constraint_name,\n"
+            "    src_col.name AS source_column,\n"
+            "    tgt_sch.name AS target_schema,\n"
+            "    tgt_tab.name AS target_table,\n"
+            "    tgt_col.name AS target_column\n"
+            "FROM sys.foreign_keys AS fk\n"
+            "    INNER JOIN sys.foreign_key_columns AS ref ON ref.constraint_object_id = fk.object_id\n"
+            "    INNER JOIN sys.tables AS src_tab ON src_tab.object_id = ref.parent_object_id\n"
+            "    INNER JOIN sys.schemas AS src_sch ON src_sch.schema_id = src_tab.schema_id\n"
+            "    INNER JOIN sys.columns AS src_col ON src_col.object_id = ref.parent_object_id AND src_col.column_id = ref.parent_column_id\n"
+            "    INNER JOIN sys.tables AS tgt_tab ON tgt_tab.object_id = ref.referenced_object_id\n"
+            "    INNER JOIN sys.schemas AS tgt_sch ON tgt_sch.schema_id = tgt_tab.schema_id\n"
+            "    INNER JOIN sys.columns AS tgt_col ON tgt_col.object_id = ref.referenced_object_id AND tgt_col.column_id = ref.referenced_column_id\n"
+            f"WHERE src_sch.name = {quote(table_id.scope_id or 'dbo')} AND src_tab.name = {quote(table_id.local_id)}\n"
+            "ORDER BY fk.name, ref.constraint_column_id;",
+        )
+
+        constraints = ForeignFactory()
+        for con in constraint_meta:
+            if table_id.scope_id is None and con.target_schema == "dbo":
+                # tables in the current schema refer to each other without a schema name
+                target_schema = None
+            else:
+                target_schema = con.target_schema
+            constraints.add(
+                con.constraint_name,
+                LocalId(con.source_column),
+                QualifiedId(target_schema, con.target_table),
+                LocalId(con.target_column),
+            )
+        return constraints.fetch()
+
     async def get_namespace_current(self) -> Namespace:
         return await self._get_namespace()
 
diff --git a/pysqlsync/dialect/mssql/generator.py b/pysqlsync/dialect/mssql/generator.py
index 044777c..f3e3168 100644
--- a/pysqlsync/dialect/mssql/generator.py
+++ b/pysqlsync/dialect/mssql/generator.py
@@ -23,6 +23,7 @@ from .data_types import (
     MSSQLBooleanType,
     MSSQLDateTimeType,
     MSSQLTimeType,
+    MSSQLVariableBinaryType,
     MSSQLVariableCharacterType,
 )
 from .mutation import MSSQLMutator
@@ -55,6 +56,7 @@ class MSSQLGenerator(BaseGenerator):
                 initialize_tables=options.initialize_tables,
                 substitutions={
                     bool: MSSQLBooleanType(),
+                    bytes: MSSQLVariableBinaryType(),
                     datetime.datetime: MSSQLDateTimeType(),
                     datetime.time: MSSQLTimeType(),
                     str: MSSQLVariableCharacterType(),
-- 
2.43.0


From 2565ac5dd869e56bdad5655352bd0b4282c0b143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 54/85] fix: quote names with backslash, and keep column order
 of references on MySQL

---
 pysqlsync/dialect/mysql/connection.py |  5 ++++-
 pysqlsync/dialect/mysql/data_types.py |  6 ++++++
 pysqlsync/dialect/mysql/discovery.py  | 10 ++++++++--
 pysqlsync/dialect/mysql/generator.py  |  7 ++++++-
 pysqlsync/formation/discovery.py      | 20 +++++++++++++++-----
 5 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/pysqlsync/dialect/mysql/connection.py b/pysqlsync/dialect/mysql/connection.py
index 06b59d4..3b5360b 100644
--- a/pysqlsync/dialect/mysql/connection.py
+++ b/pysqlsync/dialect/mysql/connection.py
@@ -14,6 +14,8 @@ from pysqlsync.model.id_types import LocalId
 from pysqlsync.resultset import resultset_unwrap_dict, resultset_unwrap_tuple
 from pysqlsync.util.typing import override
 
+from .data_types import mysql_literal
+
 D = TypeVar("D", bound=DataclassInstance)
 T = TypeVar("T")
 
@@ -119,11 +121,12 @@ class MySQLContext(BaseContext):
     async def drop_schema(self, namespace: LocalId) -> None:
         LOGGER.debug("drop schema: %s", namespace)
 
+        pattern = mysql_literal(f"'{escape_like(namespace.id, '~')}~_~_%'")
         tables = await self.query_all(
             str,
             "SELECT table_name\n"
             "FROM information_schema.tables\n"
-            f"WHERE table_schema = DATABASE() AND table_name LIKE '{escape_like(namespace.id, '~')}~_~_%' ESCAPE '~';",
+            f"WHERE table_schema = DATABASE() AND table_name LIKE {pattern} ESCAPE '~';",
         )
         if tables:
             table_list = ", ".join(quoted_id(table) for table in tables)
diff --git a/pysqlsync/dialect/mysql/data_types.py b/pysqlsync/dialect/mysql/data_types.py
index 6361793..8f1f1b1 100644
--- a/pysqlsync/dialect/mysql/data_types.py
+++ b/pysqlsync/dialect/mysql/data_types.py
@@ -5,6 +5,12 @@ from pysqlsync.model.data_types import (
 )
 
 
+def mysql_literal(literal: str) -> str:
+    "Adapts a string literal to MySQL, in which backslash is an escape character."
+
+    return literal.replace("\\", "\\\\")
+
+
 class MySQLDateTimeType(SqlTimestampType):
     def __str__(self) -> str:
         if self.precision is not None:
diff --git a/pysqlsync/dialect/mysql/discovery.py b/pysqlsync/dialect/mysql/discovery.py
index d93a859..d99501e 100644
--- a/pysqlsync/dialect/mysql/discovery.py
+++ b/pysqlsync/dialect/mysql/discovery.py
@@ -18,6 +18,7 @@ from .data_types import (
     MySQLDateTimeType,
     MySQLVariableBinaryType,
     MySQLVariableCharacterType,
+    mysql_literal,
 )
 from .object_types import MySQLObjectFactory
 
@@ -49,7 +50,7 @@ def to_default_expr(col: MySQLColumnMeta) -> Optional[str]:
         "datetime",
         "timestamp",
     ]:
-        return quote(col.column_default)
+        return mysql_literal(quote(col.column_default))
 
     return col.column_default
 
@@ -88,6 +89,10 @@ class MySQLExplorer(AnsiExplorer):
     ) -> SupportsQualifiedId:
         return PrefixedId(namespace, id)
 
+    @override
+    def _literal(self, literal: str) -> str:
+        return mysql_literal(literal)
+
     def split_composite_id(self, name: str) -> SupportsQualifiedId:
         if "__" in name:
             parts = name.split("__", 1)
@@ -157,7 +162,8 @@ class MySQLExplorer(AnsiExplorer):
             "        ON kcu.constraint_catalog = ref.constraint_catalog\n"
             "            AND kcu.constraint_schema = ref.constraint_schema\n"
             "            AND kcu.constraint_name = ref.constraint_name\n"
-            f"WHERE ref.table_name = {quote(table_id.local_id)} AND {self._where_table(table_id, 'kcu')}\n",
+            f"WHERE ref.table_name = {self._quote(table_id.local_id)} AND {self._where_table(table_id, 'kcu')}\n"
+            "ORDER BY kcu.constraint_name, kcu.ordinal_position",
         )
 
         constraints = ForeignFactory()
diff --git a/pysqlsync/dialect/mysql/generator.py b/pysqlsync/dialect/mysql/generator.py
index 8f09a3a..784797d 100644
--- a/pysqlsync/dialect/mysql/generator.py
+++ b/pysqlsync/dialect/mysql/generator.py
@@ -18,7 +18,11 @@ from pysqlsync.model.data_types import SqlFixedBinaryType, SqlIntegerType
 from pysqlsync.model.id_types import LocalId
 from pysqlsync.util.typing import override
 
-from .data_types import MySQLDateTimeType, MySQLVariableCharacterType
+from .data_types import (
+    MySQLDateTimeType,
+    MySQLVariableBinaryType,
+    MySQLVariableCharacterType,
+)
 from .mutation import MySQLMutator
 from .object_types import MySQLObjectFactory
 
@@ -50,6 +54,7 @@ class MySQLGenerator(BaseGenerator):
                 initialize_tables=options.initialize_tables,
                 substitutions={
                     bool: SqlIntegerType(1),
+                    bytes: MySQLVariableBinaryType(16777215),
                     datetime.datetime: MySQLDateTimeType(),
                     uuid.UUID: SqlFixedBinaryType(16),
                     str: MySQLVariableCharacterType(16777215),
diff --git a/pysqlsync/formation/discovery.py b/pysqlsync/formation/discovery.py
index 6e5deaa..38c9e97 100644
--- a/pysqlsync/formation/discovery.py
+++ b/pysqlsync/formation/discovery.py
@@ -118,6 +118,16 @@ class AnsiExplorer(Explorer):
 
         return self._has_column_extended_info
 
+    def _literal(self, literal: str) -> str:
+        "Adapts a string literal to the lexical rules of the database engine."
+
+        return literal
+
+    def _quote(self, text: str) -> str:
+        "Quotes a string to be embedded in a query."
+
+        return self._literal(quote(text))
+
     async def get_table_names(self) -> list[QualifiedId]:
         records = await self.conn.query_all(
             tuple[str, str],
@@ -130,11 +140,11 @@ class AnsiExplorer(Explorer):
 
     def _where_table(self, table_id: SupportsQualifiedId, alias: str) -> str:
         table_schema = (
-            quote(table_id.scope_id)
+            self._quote(table_id.scope_id)
             if table_id.scope_id is not None
             else self.conn.connection.generator.get_current_schema_stmt()
         )
-        table_name = quote(table_id.local_id)
+        table_name = self._quote(table_id.local_id)
         conditions = [
             f"{alias}.table_schema = {table_schema}",
             f"{alias}.table_name = {table_name}",
@@ -159,7 +169,7 @@ class AnsiExplorer(Explorer):
             int,
             "SELECT COUNT(*)\n"
             "FROM information_schema.columns AS col\n"
-            f"WHERE {self._where_table(table_id, 'col')} AND col.column_name = {quote(column_id.local_id)}",
+            f"WHERE {self._where_table(table_id, 'col')} AND col.column_name = {self._quote(column_id.local_id)}",
         )
         return count > 0
 
@@ -358,7 +368,7 @@ class AnsiExplorer(Explorer):
 
         # create namespace using qualified IDs
         if namespace_id is not None:
-            schema_expr = quote(namespace_id.local_id)
+            schema_expr = self._quote(namespace_id.local_id)
         else:
             schema_expr = self.conn.connection.generator.get_current_schema_stmt()
         table_names = await self.conn.query_all(
@@ -399,7 +409,7 @@ class AnsiExplorer(Explorer):
 
         # create namespace using flat IDs
         if namespace_id is not None:
-            schema_expr = f"'{escape_like(namespace_id.id, '~')}~_~_%'"
+            schema_expr = self._literal(f"'{escape_like(namespace_id.id, '~')}~_~_%'")
             condition = f"table_name LIKE {schema_expr} ESCAPE '~'"
         else:
             condition = "table_name NOT LIKE '%~_~_%' ESCAPE '~'"
-- 
2.43.0


From 228dec54bfc4699ce0c47900195d025c0f0d3f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 55/85] fix: match columns of references, and check if tables
 exist on Oracle

---
 pysqlsync/dialect/oracle/discovery.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index c079ea1..70c62a6 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -103,15 +103,31 @@ class OracleExplorer(Explorer):
             return PrefixedId(None, name)
 
     async def get_table_names(self) -> list[QualifiedId]:
-        raise NotImplementedError()
+        rows = await self.conn.query_all(
+            tuple[str, str],
+            "SELECT owner, table_name FROM dba_tables\n"
+            f"WHERE owner = {self._current_owner} AND table_name NOT LIKE '%$%'\n"
+            "ORDER BY table_name",
+        )
+        return [QualifiedId(row[0], row[1]) for row in rows]  # type: ignore
 
     async def has_table(self, table_id: SupportsQualifiedId) -> bool:
-        raise NotImplementedError()
+        count = await self.conn.query_one(
+            int,
+            "SELECT COUNT(*) FROM dba_tables\n"
+            f"WHERE owner = {self._current_owner} AND table_name = {quote(table_id.local_id)}",
+        )
+        return count > 0
 
     async def has_column(
         self, table_id: SupportsQualifiedId, column_id: LocalId
     ) -> bool:
-        raise NotImplementedError()
+        count = await self.conn.query_one(
+            int,
+            "SELECT COUNT(*) FROM dba_tab_columns\n"
+            f"WHERE owner = {self._current_owner} AND table_name = {quote(table_id.local_id)} AND column_name = {quote(column_id.local_id)}",
+        )
+        return count > 0
 
     @property
     def _current_owner(self) -> str:
@@ -182,6 +198,7 @@ class OracleExplorer(Explorer):
                 elif col.data_precision == 126:
                     data_type = SqlDoubleType()
             elif isinstance(data_type, OracleTimestampType):
+                data_type.with_time_zone = "WITH TIME ZONE" in col.data_type
                 data_type.precision = col.data_scale
 
             nullable = bool(col.is_nullable)
@@ -210,7 +227,7 @@ class OracleExplorer(Explorer):
             "FROM dba_constraints t\n"
             "    JOIN dba_cons_columns tc ON t.owner = tc.owner AND t.constraint_name = tc.constraint_name\n"
             "    LEFT JOIN dba_constraints r ON t.r_owner = r.owner AND t.r_constraint_name = r.constraint_name\n"
-            "    LEFT JOIN dba_cons_columns rc ON r.owner = rc.owner AND r.constraint_name = rc.constraint_name\n"
+            "    LEFT JOIN dba_cons_columns rc ON r.owner = rc.owner AND r.constraint_name = rc.constraint_name AND rc.position = tc.position\n"
             f"WHERE {condition}\n"
             "ORDER BY tc.position",
         )
-- 
2.43.0


From f6930a9774e08b7ece780fa724e5188ff887d667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 56/85] fix: map binary data to a type that Redshift has

---
 pysqlsync/dialect/redshift/generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysqlsync/dialect/redshift/generator.py b/pysqlsync/dialect/redshift/generator.py
index 4ae656f..00180ec 100644
--- a/pysqlsync/dialect/redshift/generator.py
+++ b/pysqlsync/dialect/redshift/generator.py
@@ -48,6 +48,7 @@ class RedshiftGenerator(BaseGenerator):
                 foreign_constraints=False,
                 initialize_tables=options.initialize_tables,
                 substitutions={
+                    bytes: RedshiftVariableBinaryType(),
                     uuid.UUID: RedshiftVariableBinaryType(16),
                     JsonType: SqlVariableCharacterType(),
                     ipaddress.IPv4Address: RedshiftVariableBinaryType(4),
-- 
2.43.0


From 996c2fddd3695c2bb10f7488caf4014d02de521f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:47 +0000
Subject: [PATCH 57/85] fix: map unsigned integers to types that hold all of
 their values

---
 pysqlsync/formation/py_to_sql.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index ef72ff1..b57d1d4 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -397,17 +397,17 @@ class DataclassConverter:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint2"))
             else:
-                return SqlIntegerType(2)
+                return SqlIntegerType(4)
         if typ is uint32:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint4"))
             else:
-                return SqlIntegerType(4)
+                return SqlIntegerType(8)
         if typ is uint64:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint8"))
             else:
-                return SqlIntegerType(8)
+                return SqlDecimalType(20, 0)
         if typ is float32:
             return SqlRealType()
         if typ is float64:
-- 
2.43.0


From c63b2f9905e67aa2b014a4694d929d0fa8d8cf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:47 +0000
Subject: [PATCH 58/85] fix: create unique constraints and range checks
 independently of reference constraints

---
 pysqlsync/formation/py_to_sql.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index b57d1d4..0b442f8 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -774,9 +774,7 @@ class DataclassConverter:
             raise TypeError(f"error processing data-class: {cls}") from e
 
         # foreign/primary key constraints
-        constraints = []
-        if self.options.foreign_constraints:
-            constraints.extend(self.dataclass_to_constraints(cls))
+        constraints = self.dataclass_to_constraints(cls)
 
         # relationships for extensible enumeration types ignore foreign constraints option and always create a foreign key
         for enum_field in dataclass_fields_as_required(
@@ -822,15 +820,16 @@ class DataclassConverter:
                     ),
                 )
 
-        for column in columns:
-            check_constraint = self.create_check_constraint(column)
-            if check_constraint:
-                constraints.append(
-                    CheckConstraint(
-                        LocalId(self.create_check_name(cls, column.name.id)),
-                        check_constraint,
-                    ),
-                )
+        if self.options.check_constraints:
+            for column in columns:
+                check_constraint = self.create_check_constraint(column)
+                if check_constraint:
+                    constraints.append(
+                        CheckConstraint(
+                            LocalId(self.create_check_name(cls, column.name.id)),
+                            check_constraint,
+                        ),
+                    )
 
         return self.options.factory.table_class(
             name=self.create_qualified_id(cls.__module__, cls.__name__),
-- 
2.43.0


From 13cdb3124e188230d219d002088bd68b4705cf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:47 +0000
Subject: [PATCH 59/85] fix: automatic defaults of types without a zero value,
 and of enumerations

---
 pysqlsync/formation/py_to_sql.py | 40 ++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 0b442f8..a559cb4 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -685,6 +685,25 @@ class DataclassConverter:
 
         return constant(value)
 
+    def _default_for_type(self, typ: TypeLike) -> Optional[str]:
+        "Default value assigned to a column of a non-nullable type, or `None` if the type has no such value."
+
+        if is_type_literal(typ):
+            return constant(unwrap_literal_values(typ)[0])
+
+        typ = unwrap_annotated_type(typ)
+        if is_type_enum(typ):
+            if self.options.enum_mode is EnumMode.RELATION:
+                # keys in the lookup table are not known in advance
+                return None
+            return self._default_expr(next(iter(typ)))
+        elif typ is datetime.datetime or typ is datetime.date or typ is datetime.time:
+            return constant(typ.min)
+        elif typ in (bool, int, float, str, decimal.Decimal):
+            return constant(typ())
+        else:
+            return None
+
     def member_to_column(
         self, field: DataclassField, cls: type[DataclassInstance], doc: Docstring
     ) -> Column:
@@ -703,6 +722,9 @@ class DataclassConverter:
         ):
             if is_reference_type(props.plain_type, cls):
                 plain_type = reference_to_key(props.plain_type, cls)
+            elif is_extensible_enum_type(props.plain_type, cls):
+                # keys in the lookup table are not known in advance
+                plain_type = None
             elif is_type_union(props.plain_type):
                 member_types = [
                     evaluate_member_type(t, cls)
@@ -725,21 +747,9 @@ class DataclassConverter:
                 # unable to infer default value for type
                 plain_type = None
 
-            if plain_type is not None:
-                default_expr: Any
-                if plain_type is datetime.datetime:
-                    default_expr = datetime.datetime.min
-                elif plain_type is datetime.date:
-                    default_expr = datetime.date.min
-                elif plain_type is datetime.time:
-                    default_expr = datetime.time.min
-                elif is_type_enum(plain_type):
-                    default_expr = next(member.value for member in plain_type)
-                else:
-                    default_expr = plain_type()  # type: ignore
-                default_value = constant(default_expr)
-            else:
-                default_value = None
+            default_value = (
+                self._default_for_type(plain_type) if plain_type is not None else None
+            )
         else:
             default_value = None
 
-- 
2.43.0


From 8ccaf21f06a9c98bd154c9e323d91f10a600ed39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:47 +0000
Subject: [PATCH 60/85] fix: date and time constants as default values

---
 pysqlsync/dialect/oracle/object_types.py | 10 ++++++++--
 pysqlsync/model/data_types.py            |  4 ++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/oracle/object_types.py b/pysqlsync/dialect/oracle/object_types.py
index 5469aff..b98581c 100644
--- a/pysqlsync/dialect/oracle/object_types.py
+++ b/pysqlsync/dialect/oracle/object_types.py
@@ -1,7 +1,7 @@
 import re
 
 from pysqlsync.formation.object_types import Column, EnumTable, ObjectFactory, Table
-from pysqlsync.model.data_types import SqlTimestampType
+from pysqlsync.model.data_types import SqlDateType, SqlTimestampType, SqlTimeType
 
 
 class OracleColumn(Column):
@@ -12,11 +12,17 @@ class OracleColumn(Column):
 
         if isinstance(self.data_type, SqlTimestampType):
             m = re.match(
-                r"^'(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2}) (?P<hour>\d{2}):(?P<minute>\d{2}):(?P<second>\d{2})'$",
+                r"^'(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2}) (?P<hour>\d{2}):(?P<minute>\d{2}):(?P<second>\d{2})([.]\d+)?'$",
                 self.default,
             )
             if m:
                 return f"TIMESTAMP {self.default}"
+        elif isinstance(self.data_type, SqlDateType):
+            if re.match(r"^'\d{4}-\d{2}-\d{2}'$", self.default):
+                return f"DATE {self.default}"
+        elif isinstance(self.data_type, SqlTimeType):
+            if re.match(r"^'\d{2}:\d{2}:\d{2}([.]\d+)?'$", self.default):
+                return f"INTERVAL '0 {self.default[1:-1]}' DAY TO SECOND"
 
         return self.default
 
diff --git a/pysqlsync/model/data_types.py b/pysqlsync/model/data_types.py
index c71aef6..7049a29 100644
--- a/pysqlsync/model/data_types.py
+++ b/pysqlsync/model/data_types.py
@@ -40,6 +40,10 @@ def constant(v: Any) -> str:
         else:
             timestamp = v
         return quote(timestamp.isoformat(sep=" "))
+    elif isinstance(v, datetime.date):
+        return quote(v.isoformat())
+    elif isinstance(v, datetime.time):
+        return quote(v.replace(tzinfo=None).isoformat())
     elif isinstance(v, tuple):
         values = ", ".join(constant(value) for value in v)
         return f"({values})"
-- 
2.43.0


From 5bc610ccfab5e2e091ba398038b097c10dfb3d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:47 +0000
Subject: [PATCH 61/85] fix: honor mode of composite types in arrays

---
 pysqlsync/formation/py_to_sql.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index a559cb4..3435a3e 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -622,13 +622,7 @@ class DataclassConverter:
                 )
             if isinstance(item_type, type):
                 if self.options.array_mode is ArrayMode.ARRAY:
-                    return SqlArrayType(
-                        SqlUserDefinedType(
-                            self.create_qualified_id(
-                                item_type.__module__, item_type.__name__
-                            )
-                        )
-                    )
+                    return SqlArrayType(self.member_to_sql_data_type(item_type, cls))
                 elif self.options.array_mode is ArrayMode.JSON:
                     return self.member_to_sql_data_type(JsonType, cls)
                 elif self.options.array_mode is ArrayMode.RELATION:
-- 
2.43.0


From 648ce360b59dc3f62b6609555e3f8a184a22b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:47 +0000
Subject: [PATCH 62/85] fix: long strings are varchar(max) on Microsoft SQL
 Server

---
 pysqlsync/dialect/mssql/data_types.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/mssql/data_types.py b/pysqlsync/dialect/mssql/data_types.py
index 1a12a3c..e57a1dc 100644
--- a/pysqlsync/dialect/mssql/data_types.py
+++ b/pysqlsync/dialect/mssql/data_types.py
@@ -43,11 +43,11 @@ class MSSQLVariableCharacterType(SqlVariableCharacterType):
 
     def __str__(self) -> str:
         if self.encoding is MSSQLEncoding.UTF16:
-            chartype = "nvarchar"
+            chartype, maximum = "nvarchar", 4000
         else:
-            chartype = "varchar"
+            chartype, maximum = "varchar", 8000
 
-        if self.limit is not None and self.limit > 0 and self.limit != 2147483647:
+        if self.limit is not None and 0 < self.limit <= maximum:
             return f"{chartype}({self.limit})"
         else:
             return f"{chartype}(max)"
-- 
2.43.0


From 578d1c4ff87a5bfcf613772dae0b55fe6698e23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:47 +0000
Subject: [PATCH 63/85] fix: escape backslash in string literals on MySQL

---
 pysqlsync/dialect/mysql/data_types.py   | 11 ++++++++++
 pysqlsync/dialect/mysql/discovery.py    | 22 +++++++++++--------
 pysqlsync/dialect/mysql/mutation.py     |  9 +++++---
 pysqlsync/dialect/mysql/object_types.py | 29 +++++++++++++++----------
 pysqlsync/formation/object_types.py     | 14 ++++++++++--
 pysqlsync/formation/py_to_sql.py        | 17 ++++++++-------
 6 files changed, 69 insertions(+), 33 deletions(-)

diff --git a/pysqlsync/dialect/mysql/data_types.py b/pysqlsync/dialect/mysql/data_types.py
index 8f1f1b1..b3f4776 100644
--- a/pysqlsync/dialect/mysql/data_types.py
+++ b/pysqlsync/dialect/mysql/data_types.py
@@ -1,3 +1,5 @@
+import re
+
 from pysqlsync.model.data_types import (
     SqlTimestampType,
     SqlVariableBinaryType,
@@ -11,6 +13,15 @@ def mysql_literal(literal: str) -> str:
     return literal.replace("\\", "\\\\")
 
 
+def mysql_unescape(text: str) -> str:
+    "Reverts backslash escapes in a string that MySQL has printed."
+
+    escapes = {"0": "\0", "n": "\n", "r": "\r"}
+    return re.sub(
+        r"\\(.)", lambda m: escapes.get(m.group(1), m.group(1)), text, flags=re.DOTALL
+    )
+
+
 class MySQLDateTimeType(SqlTimestampType):
     def __str__(self) -> str:
         if self.precision is not None:
diff --git a/pysqlsync/dialect/mysql/discovery.py b/pysqlsync/dialect/mysql/discovery.py
index d99501e..bd9c876 100644
--- a/pysqlsync/dialect/mysql/discovery.py
+++ b/pysqlsync/dialect/mysql/discovery.py
@@ -10,7 +10,7 @@ from pysqlsync.formation.discovery import (
     AnsiExplorer,
 )
 from pysqlsync.formation.object_types import Column, ForeignConstraint, Namespace
-from pysqlsync.model.data_types import quote
+from pysqlsync.model.data_types import SqlEnumType, quote
 from pysqlsync.model.id_types import LocalId, PrefixedId, SupportsQualifiedId
 from pysqlsync.util.typing import override
 
@@ -19,6 +19,7 @@ from .data_types import (
     MySQLVariableBinaryType,
     MySQLVariableCharacterType,
     mysql_literal,
+    mysql_unescape,
 )
 from .object_types import MySQLObjectFactory
 
@@ -122,17 +123,20 @@ class MySQLExplorer(AnsiExplorer):
 
         columns: list[Column] = []
         for col in column_meta:
+            data_type = self.discovery.sql_data_type_from_spec(
+                type_name=col.data_type,
+                type_def=col.column_type,
+                character_maximum_length=col.character_maximum_length,
+                numeric_precision=col.numeric_precision,
+                numeric_scale=col.numeric_scale,
+                datetime_precision=col.datetime_precision,
+            )
+            if isinstance(data_type, SqlEnumType):
+                data_type = SqlEnumType([mysql_unescape(v) for v in data_type.values])
             columns.append(
                 self.factory.column_class(
                     LocalId(col.column_name),
-                    self.discovery.sql_data_type_from_spec(
-                        type_name=col.data_type,
-                        type_def=col.column_type,
-                        character_maximum_length=col.character_maximum_length,
-                        numeric_precision=col.numeric_precision,
-                        numeric_scale=col.numeric_scale,
-                        datetime_precision=col.datetime_precision,
-                    ),
+                    data_type,
                     bool(col.nullable),
                     default=to_default_expr(col),
                     identity="auto_increment" in col.extra,
diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index c470e17..140be62 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -18,6 +18,7 @@ from pysqlsync.model.data_types import (
 )
 from pysqlsync.model.id_types import LocalId
 
+from .data_types import mysql_literal
 from .object_types import MySQLColumn, MySQLTable
 
 
@@ -28,7 +29,9 @@ class MySQLMutator(Mutator):
         statements: list[str] = []
         ref = target_table.get_constraint(target.name)
         if isinstance(source.data_type, SqlEnumType):
-            enum_values = ", ".join(f"({quote(v)})" for v in source.data_type.values)
+            enum_values = ", ".join(
+                f"({mysql_literal(quote(v))})" for v in source.data_type.values
+            )
             statements.append(
                 f'INSERT INTO {ref.table} ("value") VALUES {enum_values}\n'
                 'ON DUPLICATE KEY UPDATE "value" = "value";'
@@ -61,14 +64,14 @@ class MySQLMutator(Mutator):
         if source_desc is None:
             if target_desc is not None:
                 statements.append(
-                    f"ALTER TABLE {target.name} COMMENT = {quote(target_desc)};"
+                    f"ALTER TABLE {target.name} COMMENT = {mysql_literal(quote(target_desc))};"
                 )
         else:
             if target_desc is None:
                 statements.append(f"ALTER TABLE {target.name} COMMENT = {quote('')};")
             elif source_desc != target_desc:
                 statements.append(
-                    f"ALTER TABLE {target.name} COMMENT = {quote(target_desc)};"
+                    f"ALTER TABLE {target.name} COMMENT = {mysql_literal(quote(target_desc))};"
                 )
 
         return join_or_none(statements)
diff --git a/pysqlsync/dialect/mysql/object_types.py b/pysqlsync/dialect/mysql/object_types.py
index 5000bc5..ebdab51 100644
--- a/pysqlsync/dialect/mysql/object_types.py
+++ b/pysqlsync/dialect/mysql/object_types.py
@@ -1,5 +1,5 @@
 from dataclasses import dataclass
-from typing import Optional
+from typing import Any, Optional
 
 from pysqlsync.formation.object_types import (
     Column,
@@ -8,9 +8,11 @@ from pysqlsync.formation.object_types import (
     ObjectFactory,
     Table,
 )
-from pysqlsync.model.data_types import SqlEnumType, quote
+from pysqlsync.model.data_types import SqlEnumType, constant, quote
 from pysqlsync.model.id_types import LocalId
 
+from .data_types import mysql_literal
+
 
 class MySQLTable(Table):
     @property
@@ -33,7 +35,7 @@ class MySQLTable(Table):
         )
         definition = ",\n".join(defs)
         comment = (
-            f"\nCOMMENT = {quote(self.short_description)}"
+            f"\nCOMMENT = {mysql_literal(quote(self.short_description))}"
             if self.short_description
             else ""
         )
@@ -41,23 +43,25 @@ class MySQLTable(Table):
 
 
 class MySQLEnumTable(EnumTable, MySQLTable):
-    pass
+    def constant(self, value: Any) -> str:
+        return mysql_literal(constant(value))
 
 
 @dataclass(eq=True)
 class MySQLColumn(Column):
     @property
     def data_spec(self) -> str:
-        charset = (
-            " CHARACTER SET ascii COLLATE ascii_bin"
-            if isinstance(self.data_type, SqlEnumType)
-            else ""
-        )
+        if isinstance(self.data_type, SqlEnumType):
+            data_type = mysql_literal(str(self.data_type))
+            charset = " CHARACTER SET ascii COLLATE ascii_bin"
+        else:
+            data_type = str(self.data_type)
+            charset = ""
         nullable = " NOT NULL" if not self.nullable else ""
         default = f" DEFAULT {self.default}" if self.default is not None else ""
         identity = " AUTO_INCREMENT" if self.identity else ""
         description = f" COMMENT {self.comment}" if self.description is not None else ""
-        return f"{self.data_type}{charset}{nullable}{default}{identity}{description}"
+        return f"{data_type}{charset}{nullable}{default}{identity}{description}"
 
     @property
     def default_expr(self) -> Optional[str]:
@@ -84,7 +88,7 @@ class MySQLColumn(Column):
                     f"comment for column {self.name} too long, expected: maximum 1024; got: {len(description)}"
                 )
 
-            return quote(description)
+            return mysql_literal(quote(description))
         else:
             return None
 
@@ -93,6 +97,9 @@ class MySQLColumn(Column):
 
 
 class MySQLObjectFactory(ObjectFactory):
+    def constant(self, value: Any) -> str:
+        return mysql_literal(constant(value))
+
     @property
     def column_class(self) -> type[Column]:
         return MySQLColumn
diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 43183dd..544a82c 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -634,6 +634,11 @@ class EnumTable(Table):
         )
         self.values = values
 
+    def constant(self, value: Any) -> str:
+        "Outputs a constant value in the SQL dialect of the table."
+
+        return constant(value)
+
     def create_stmt(self) -> str:
         statements: list[str] = []
         statements.append(super().create_stmt())
@@ -641,9 +646,9 @@ class EnumTable(Table):
         values: list[str] = []
         for value in self.values:
             if isinstance(value, tuple) or is_dataclass_instance(value):
-                values.append(constant(value))
+                values.append(self.constant(value))
             else:
-                values.append(f"({constant(value)})")
+                values.append(f"({self.constant(value)})")
         value_list = ", ".join(values)
 
         statements.append(
@@ -940,6 +945,11 @@ class Catalog(DatabaseObject):
 class ObjectFactory:
     "Creates new column, table, struct and namespace instances."
 
+    def constant(self, value: Any) -> str:
+        "Outputs a constant value in the SQL dialect of the objects."
+
+        return constant(value)
+
     @property
     def column_class(self) -> type[Column]:
         "The object type instantiated for table columns."
diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 3435a3e..1c0256f 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -74,7 +74,6 @@ from ..model.data_types import (
     SqlUuidType,
     SqlVariableCharacterType,
     compatible_type,
-    constant,
 )
 from ..model.id_types import (
     GlobalId,
@@ -673,17 +672,17 @@ class DataclassConverter:
                     f"default value not supported for an enumeration whose values are stored in a separate table: {value}"
                 )
             elif self.options.enum_mode is EnumMode.CHECK:
-                return constant(value.value)
+                return self.options.factory.constant(value.value)
             else:
-                return constant(str(value.value))
+                return self.options.factory.constant(str(value.value))
 
-        return constant(value)
+        return self.options.factory.constant(value)
 
     def _default_for_type(self, typ: TypeLike) -> Optional[str]:
         "Default value assigned to a column of a non-nullable type, or `None` if the type has no such value."
 
         if is_type_literal(typ):
-            return constant(unwrap_literal_values(typ)[0])
+            return self.options.factory.constant(unwrap_literal_values(typ)[0])
 
         typ = unwrap_annotated_type(typ)
         if is_type_enum(typ):
@@ -692,9 +691,9 @@ class DataclassConverter:
                 return None
             return self._default_expr(next(iter(typ)))
         elif typ is datetime.datetime or typ is datetime.date or typ is datetime.time:
-            return constant(typ.min)
+            return self.options.factory.constant(typ.min)
         elif typ in (bool, int, float, str, decimal.Decimal):
-            return constant(typ())
+            return self.options.factory.constant(typ())
         else:
             return None
 
@@ -816,7 +815,9 @@ class DataclassConverter:
 
         if self.options.check_constraints and self.options.enum_mode is EnumMode.CHECK:
             for enum_field in dataclass_fields_as_required(cls, is_type_enum):
-                enum_values = ", ".join(constant(e.value) for e in enum_field.type)
+                enum_values = ", ".join(
+                    self.options.factory.constant(e.value) for e in enum_field.type
+                )
                 constraints.append(
                     CheckConstraint(
                         LocalId(self.create_check_name(cls, enum_field.name)),
-- 
2.43.0


From 14c78f370794549a9d712beb25f3154da73af75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:04 +0000
Subject: [PATCH 64/85] fix: uniqueness cannot be declared in Delta Lake

---
 pysqlsync/dialect/delta/object_types.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/delta/object_types.py b/pysqlsync/dialect/delta/object_types.py
index e7a80b1..3685279 100644
--- a/pysqlsync/dialect/delta/object_types.py
+++ b/pysqlsync/dialect/delta/object_types.py
@@ -1,7 +1,14 @@
 import re
 from typing import Optional
 
-from pysqlsync.formation.object_types import Column, Namespace, ObjectFactory, Table
+from pysqlsync.formation.object_types import (
+    Column,
+    Constraint,
+    Namespace,
+    ObjectFactory,
+    Table,
+    UniqueConstraint,
+)
 from pysqlsync.model.id_types import LocalId
 
 _sql_quoted_str_table = str.maketrans(
@@ -38,6 +45,13 @@ class DeltaTable(Table):
         )
         return f"CREATE TABLE {self.name} (\n{definition}\n){comment};"
 
+    @property
+    def table_constraints(self) -> list[Constraint]:
+        # uniqueness cannot be declared
+        return [
+            c for c in super().table_constraints if not isinstance(c, UniqueConstraint)
+        ]
+
     @property
     def primary_key_constraint_id(self) -> LocalId:
         return LocalId(f"pk_{self.name.local_id.replace('.', '_')}")
-- 
2.43.0


From 0c72f54d23206634bda15ff36d2bf941dbc3b588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:17 +0000
Subject: [PATCH 65/85] fix: strings on Redshift are not cut off, and binary
 types of Snowflake and Delta

---
 pysqlsync/dialect/delta/generator.py      |  2 ++
 pysqlsync/dialect/redshift/generator.py   |  4 +++-
 pysqlsync/dialect/snowflake/data_types.py | 11 ++++++++++-
 pysqlsync/dialect/snowflake/generator.py  |  7 ++++++-
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/delta/generator.py b/pysqlsync/dialect/delta/generator.py
index 98374a7..58f2db1 100644
--- a/pysqlsync/dialect/delta/generator.py
+++ b/pysqlsync/dialect/delta/generator.py
@@ -23,6 +23,7 @@ from .data_types import (
     DeltaFixedBinaryType,
     DeltaRealType,
     DeltaTimestampType,
+    DeltaVariableBinaryType,
     DeltaVariableCharacterType,
 )
 from .object_types import DeltaObjectFactory
@@ -53,6 +54,7 @@ class DeltaGenerator(BaseGenerator):
                 foreign_constraints=False,
                 initialize_tables=options.initialize_tables,
                 substitutions={
+                    bytes: DeltaVariableBinaryType(),
                     datetime.datetime: DeltaTimestampType(),
                     float: DeltaDoubleType(),
                     float32: DeltaRealType(),
diff --git a/pysqlsync/dialect/redshift/generator.py b/pysqlsync/dialect/redshift/generator.py
index 00180ec..579eee0 100644
--- a/pysqlsync/dialect/redshift/generator.py
+++ b/pysqlsync/dialect/redshift/generator.py
@@ -46,11 +46,13 @@ class RedshiftGenerator(BaseGenerator):
                 array_mode=options.array_mode or ArrayMode.JSON,
                 namespaces=NamespaceMapping(options.namespaces),
                 foreign_constraints=False,
+                check_constraints=False,
                 initialize_tables=options.initialize_tables,
                 substitutions={
                     bytes: RedshiftVariableBinaryType(),
                     uuid.UUID: RedshiftVariableBinaryType(16),
-                    JsonType: SqlVariableCharacterType(),
+                    str: SqlVariableCharacterType(65535),
+                    JsonType: SqlVariableCharacterType(65535),
                     ipaddress.IPv4Address: RedshiftVariableBinaryType(4),
                     ipaddress.IPv6Address: RedshiftVariableBinaryType(16),
                 },
diff --git a/pysqlsync/dialect/snowflake/data_types.py b/pysqlsync/dialect/snowflake/data_types.py
index 6361c79..5c8f4d4 100644
--- a/pysqlsync/dialect/snowflake/data_types.py
+++ b/pysqlsync/dialect/snowflake/data_types.py
@@ -1,4 +1,8 @@
-from pysqlsync.model.data_types import SqlJsonType, SqlTimestampType
+from pysqlsync.model.data_types import (
+    SqlJsonType,
+    SqlTimestampType,
+    SqlVariableBinaryType,
+)
 
 
 class SnowflakeDateTimeType(SqlTimestampType):
@@ -11,6 +15,11 @@ class SnowflakeDateTimeType(SqlTimestampType):
         return "datetime"
 
 
+class SnowflakeVariableBinaryType(SqlVariableBinaryType):
+    def __str__(self) -> str:
+        return f"binary({self.storage})" if self.storage is not None else "binary"
+
+
 class SnowflakeJsonType(SqlJsonType):
     "Represents JSON data extracted with PARSE_JSON."
 
diff --git a/pysqlsync/dialect/snowflake/generator.py b/pysqlsync/dialect/snowflake/generator.py
index 24e48dc..f4020f7 100644
--- a/pysqlsync/dialect/snowflake/generator.py
+++ b/pysqlsync/dialect/snowflake/generator.py
@@ -17,7 +17,11 @@ from pysqlsync.formation.py_to_sql import (
 from pysqlsync.model.data_types import SqlFixedBinaryType
 from pysqlsync.util.typing import override
 
-from .data_types import SnowflakeDateTimeType, SnowflakeJsonType
+from .data_types import (
+    SnowflakeDateTimeType,
+    SnowflakeJsonType,
+    SnowflakeVariableBinaryType,
+)
 from .object_types import SnowflakeObjectFactory
 
 
@@ -47,6 +51,7 @@ class SnowflakeGenerator(BaseGenerator):
                 foreign_constraints=False,
                 initialize_tables=options.initialize_tables,
                 substitutions={
+                    bytes: SnowflakeVariableBinaryType(),
                     datetime.datetime: SnowflakeDateTimeType(),
                     uuid.UUID: SqlFixedBinaryType(16),
                     JsonType: SnowflakeJsonType(),
-- 
2.43.0


From 7a8df938ce3a995244dc0cc30bc88346e42cc3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:19 +0000
Subject: [PATCH 66/85] fix: schema names with a quote on Microsoft SQL Server

---
 pysqlsync/dialect/mssql/object_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mssql/object_types.py b/pysqlsync/dialect/mssql/object_types.py
index 8744bff..5d5e88c 100644
--- a/pysqlsync/dialect/mssql/object_types.py
+++ b/pysqlsync/dialect/mssql/object_types.py
@@ -91,7 +91,7 @@ class MSSQLNamespace(Namespace):
     def create_schema_stmt(self) -> Optional[str]:
         if self.name.local_id:
             # Microsoft SQL Server requires a separate batch for creating a schema
-            return f"IF NOT EXISTS ( SELECT * FROM sys.schemas WHERE name = N{quote(self.name.id)} ) EXEC('CREATE SCHEMA {self.name}');"
+            return f"IF NOT EXISTS ( SELECT * FROM sys.schemas WHERE name = N{quote(self.name.id)} ) EXEC({quote(f'CREATE SCHEMA {self.name}')});"
         else:
             return None
 
-- 
2.43.0


From 1d2a1a7d565fbe619cdc338446862333d5ad2f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:19 +0000
Subject: [PATCH 67/85] fix: labels that are not ASCII in enumerations of MySQL

---
 pysqlsync/dialect/mysql/object_types.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mysql/object_types.py b/pysqlsync/dialect/mysql/object_types.py
index ebdab51..0589323 100644
--- a/pysqlsync/dialect/mysql/object_types.py
+++ b/pysqlsync/dialect/mysql/object_types.py
@@ -53,7 +53,10 @@ class MySQLColumn(Column):
     def data_spec(self) -> str:
         if isinstance(self.data_type, SqlEnumType):
             data_type = mysql_literal(str(self.data_type))
-            charset = " CHARACTER SET ascii COLLATE ascii_bin"
+            if all(value.isascii() for value in self.data_type.values):
+                charset = " CHARACTER SET ascii COLLATE ascii_bin"
+            else:
+                charset = " CHARACTER SET utf8mb4 COLLATE utf8mb4_bin"
         else:
             data_type = str(self.data_type)
             charset = ""
-- 
2.43.0


From 62741515ab22e47276e539832dca22a12d1387d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:19 +0000
Subject: [PATCH 68/85] fix: names with a percent sign in data statements of
 MySQL

---
 pysqlsync/dialect/mysql/generator.py | 31 +++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/pysqlsync/dialect/mysql/generator.py b/pysqlsync/dialect/mysql/generator.py
index 784797d..3190898 100644
--- a/pysqlsync/dialect/mysql/generator.py
+++ b/pysqlsync/dialect/mysql/generator.py
@@ -1,7 +1,7 @@
 import datetime
 import ipaddress
 import uuid
-from typing import Any, Callable, Optional
+from typing import Any, Callable, Optional, Union
 
 from pysqlsync.base import BaseGenerator, GeneratorOptions
 from pysqlsync.formation.inspection import is_ip_address_type
@@ -15,7 +15,7 @@ from pysqlsync.formation.py_to_sql import (
     StructMode,
 )
 from pysqlsync.model.data_types import SqlFixedBinaryType, SqlIntegerType
-from pysqlsync.model.id_types import LocalId
+from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 from pysqlsync.util.typing import override
 
 from .data_types import (
@@ -79,9 +79,9 @@ class MySQLGenerator(BaseGenerator):
         self, table: Table, order: Optional[tuple[str, ...]] = None
     ) -> str:
         statements: list[str] = []
-        statements.append(f"INSERT INTO {table.name}")
+        statements.append(f"INSERT INTO {_format(table.name)}")
         columns = [column for column in table.get_columns(order) if not column.identity]
-        column_list = ", ".join(str(column.name) for column in columns)
+        column_list = ", ".join(_format(column.name) for column in columns)
         value_list = ", ".join("%s" for column in columns)
         statements.append(f"({column_list}) VALUES ({value_list})")
         statements.append(";")
@@ -92,9 +92,9 @@ class MySQLGenerator(BaseGenerator):
         self, table: Table, order: Optional[tuple[str, ...]] = None
     ) -> str:
         statements: list[str] = []
-        statements.append(f"INSERT INTO {table.name}")
+        statements.append(f"INSERT INTO {_format(table.name)}")
         columns = [column for column in table.get_columns(order) if not column.identity]
-        column_list = ", ".join(str(column.name) for column in columns)
+        column_list = ", ".join(_format(column.name) for column in columns)
         value_list = ", ".join("%s" for column in columns)
         statements.append(f"({column_list}) VALUES ({value_list})")
         statements.append("ON DUPLICATE KEY UPDATE")
@@ -108,7 +108,7 @@ class MySQLGenerator(BaseGenerator):
         self, table: Table, order: Optional[tuple[str, ...]] = None
     ) -> str:
         statements: list[str] = []
-        statements.append(f"INSERT INTO {table.name}")
+        statements.append(f"INSERT INTO {_format(table.name)}")
         columns = [column for column in table.get_columns(order)]
         statements.append(_field_list([column.name for column in columns]))
         statements.append("ON DUPLICATE KEY UPDATE")
@@ -121,6 +121,11 @@ class MySQLGenerator(BaseGenerator):
         statements.append(";")
         return "\n".join(statements)
 
+    @override
+    def get_table_delete_stmt(self, table: Table) -> str:
+        column = table.get_primary_column()
+        return f"DELETE FROM {_format(table.name)} WHERE {_format(column.name)} = {self.placeholder(1)}"
+
     @override
     def get_value_transformer(
         self, column: Column, field_type: type
@@ -133,8 +138,18 @@ class MySQLGenerator(BaseGenerator):
         return super().get_value_transformer(column, field_type)
 
 
+def _format(id: Union[LocalId, SupportsQualifiedId]) -> str:
+    """
+    Quotes an identifier in a statement that the driver formats with the operator `%`.
+
+    The part of an INSERT statement that follows VALUES is not formatted.
+    """
+
+    return str(id).replace("%", "%%")
+
+
 def _field_list(field_ids: list[LocalId]) -> str:
-    field_list = ", ".join(str(field_id) for field_id in field_ids)
+    field_list = ", ".join(_format(field_id) for field_id in field_ids)
     value_list = ", ".join("%s" for _ in field_ids)
     if False:
         # compatible with MySQL 8.0.19 and later, slow with aiomysql 0.2.0 and earlier
-- 
2.43.0


From ea63fb78964ec41f6459777a266275784ed77ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:19 +0000
Subject: [PATCH 69/85] fix: table names with a quote when dropping a table on
 Oracle

---
 pysqlsync/dialect/oracle/object_types.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/oracle/object_types.py b/pysqlsync/dialect/oracle/object_types.py
index b98581c..3cb6758 100644
--- a/pysqlsync/dialect/oracle/object_types.py
+++ b/pysqlsync/dialect/oracle/object_types.py
@@ -1,7 +1,12 @@
 import re
 
 from pysqlsync.formation.object_types import Column, EnumTable, ObjectFactory, Table
-from pysqlsync.model.data_types import SqlDateType, SqlTimestampType, SqlTimeType
+from pysqlsync.model.data_types import (
+    SqlDateType,
+    SqlTimestampType,
+    SqlTimeType,
+    quote,
+)
 
 
 class OracleColumn(Column):
@@ -43,7 +48,7 @@ class OracleTable(Table):
     def drop_if_exists_stmt(self) -> str:
         return (
             "BEGIN\n"
-            f"    EXECUTE IMMEDIATE 'DROP TABLE {self.name} CASCADE CONSTRAINTS PURGE';\n"
+            f"    EXECUTE IMMEDIATE {quote(f'DROP TABLE {self.name} CASCADE CONSTRAINTS PURGE')};\n"
             "EXCEPTION WHEN OTHERS THEN IF SQLCODE != -942 THEN RAISE; END IF;\n"
             "END;"
         )
-- 
2.43.0


From e3da3e2cd54956a7f26653bf2ae66f35c62d1ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:19 +0000
Subject: [PATCH 70/85] fix: split scripts only at the end of statements

---
 pysqlsync/dialect/oracle/connection.py   |  4 ++--
 pysqlsync/dialect/redshift/connection.py |  4 ++--
 pysqlsync/util/script.py                 | 25 ++++++++++++++++++++++++
 3 files changed, 29 insertions(+), 4 deletions(-)
 create mode 100644 pysqlsync/util/script.py

diff --git a/pysqlsync/dialect/oracle/connection.py b/pysqlsync/dialect/oracle/connection.py
index 3a0bf41..201948a 100644
--- a/pysqlsync/dialect/oracle/connection.py
+++ b/pysqlsync/dialect/oracle/connection.py
@@ -1,5 +1,4 @@
 import logging
-import re
 import typing
 from typing import Iterable, Optional, TypeVar
 
@@ -18,6 +17,7 @@ from pysqlsync.model.data_types import escape_like
 from pysqlsync.model.id_types import LocalId
 from pysqlsync.resultset import resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
+from pysqlsync.util.script import split_script
 from pysqlsync.util.typing import override
 
 from .data_types import sql_to_oracle_type
@@ -74,7 +74,7 @@ class OracleContext(BaseContext):
                 cur.execute(statement)
             else:
                 statement = statement.rstrip("\r\n\t\v ;")
-                for s in re.split(r";$", statement, flags=re.MULTILINE):
+                for s in split_script(statement):
                     try:
                         cur.execute(s)
                     except Exception as e:
diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 90a7191..6e938e2 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -1,6 +1,5 @@
 import dataclasses
 import logging
-import re
 import typing
 from io import BytesIO
 from typing import Any, Iterable, Optional, TypeVar
@@ -21,6 +20,7 @@ from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 from pysqlsync.model.properties import is_identity_type
 from pysqlsync.resultset import resultset_unwrap_dict, resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
+from pysqlsync.util.script import split_script
 from pysqlsync.util.typing import override
 
 D = TypeVar("D", bound=DataclassInstance)
@@ -84,7 +84,7 @@ class RedshiftContext(BaseContext):
             # the possibility to execute multiple statements in one go. We artificially split SQL scripts into
             # multiple statements to work around this limitation in the connector.
             statement = statement.rstrip("\r\n\t\v ;")
-            for s in re.split(r";$", statement, flags=re.MULTILINE):
+            for s in split_script(statement):
                 try:
                     cursor.execute(s)
                 except Exception as e:
diff --git a/pysqlsync/util/script.py b/pysqlsync/util/script.py
new file mode 100644
index 0000000..9151803
--- /dev/null
+++ b/pysqlsync/util/script.py
@@ -0,0 +1,25 @@
+import re
+
+_SCRIPT_TOKEN = re.compile(
+    r"""
+    '[^']*'  # string literal
+    | "[^"]*"  # quoted identifier
+    | --[^\n]*  # comment
+    | /\*.*?\*/  # comment
+    | (?P<end>;(?=\n|\Z))  # end of statement
+    """,
+    re.VERBOSE | re.DOTALL,
+)
+
+
+def split_script(script: str) -> list[str]:
+    "Splits a script at semicolons at the end of lines that are not part of a literal, a quoted identifier or a comment."
+
+    statements: list[str] = []
+    start = 0
+    for m in _SCRIPT_TOKEN.finditer(script):
+        if m.group("end"):
+            statements.append(script[start : m.start()])
+            start = m.end()
+    statements.append(script[start:])
+    return statements
-- 
2.43.0


From 378c835510598b374de4513cf1dcb881e83fe298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:19 +0000
Subject: [PATCH 71/85] fix: prefixed names are the same when they read the
 same

---
 pysqlsync/model/id_types.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/model/id_types.py b/pysqlsync/model/id_types.py
index 2cf64e4..4661bd7 100644
--- a/pysqlsync/model/id_types.py
+++ b/pysqlsync/model/id_types.py
@@ -97,7 +97,7 @@ class LocalId:
         return self.quoted_id
 
 
-@dataclass(frozen=True)
+@dataclass(frozen=True, eq=False)
 class PrefixedId:
     namespace: Optional[str]
     id: str
@@ -130,6 +130,15 @@ class PrefixedId:
     def rename(self, id: str) -> "SupportsQualifiedId":
         return PrefixedId(self.namespace, id)
 
+    def __eq__(self, other: object) -> bool:
+        # the boundary between namespace and name is not unique in a name
+        if not isinstance(other, PrefixedId):
+            return NotImplemented
+        return self.local_id == other.local_id
+
+    def __hash__(self) -> int:
+        return hash(self.local_id)
+
     def __str__(self) -> str:
         "Quotes a qualified identifier to be embedded in a SQL statement."
 
-- 
2.43.0


From 35086a04fbd43577dca3d4a9a60b54312b5aa74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:19 +0000
Subject: [PATCH 72/85] fix: escape backslash in string literals on Redshift,
 Snowflake and Delta

---
 pysqlsync/dialect/delta/object_types.py      | 16 ++++++++++-
 pysqlsync/dialect/postgresql/mutation.py     |  7 +++--
 pysqlsync/dialect/postgresql/object_types.py |  7 +++--
 pysqlsync/dialect/redshift/generator.py      |  8 +++---
 pysqlsync/dialect/redshift/mutation.py       |  8 ++++++
 pysqlsync/dialect/redshift/object_types.py   | 29 ++++++++++++++++++++
 pysqlsync/dialect/snowflake/object_types.py  | 18 ++++++++++--
 pysqlsync/model/data_types.py                |  6 ++++
 8 files changed, 87 insertions(+), 12 deletions(-)
 create mode 100644 pysqlsync/dialect/redshift/mutation.py
 create mode 100644 pysqlsync/dialect/redshift/object_types.py

diff --git a/pysqlsync/dialect/delta/object_types.py b/pysqlsync/dialect/delta/object_types.py
index 3685279..644f8fb 100644
--- a/pysqlsync/dialect/delta/object_types.py
+++ b/pysqlsync/dialect/delta/object_types.py
@@ -1,14 +1,16 @@
 import re
-from typing import Optional
+from typing import Any, Optional
 
 from pysqlsync.formation.object_types import (
     Column,
     Constraint,
+    EnumTable,
     Namespace,
     ObjectFactory,
     Table,
     UniqueConstraint,
 )
+from pysqlsync.model.data_types import constant, escape_backslash
 from pysqlsync.model.id_types import LocalId
 
 _sql_quoted_str_table = str.maketrans(
@@ -57,6 +59,11 @@ class DeltaTable(Table):
         return LocalId(f"pk_{self.name.local_id.replace('.', '_')}")
 
 
+class DeltaEnumTable(EnumTable):
+    def constant(self, value: Any) -> str:
+        return escape_backslash(constant(value))
+
+
 class DeltaColumn(Column):
     @property
     def data_spec(self) -> str:
@@ -92,6 +99,9 @@ class DeltaNamespace(Namespace):
 
 
 class DeltaObjectFactory(ObjectFactory):
+    def constant(self, value: Any) -> str:
+        return escape_backslash(constant(value))
+
     @property
     def column_class(self) -> type[Column]:
         return DeltaColumn
@@ -100,6 +110,10 @@ class DeltaObjectFactory(ObjectFactory):
     def table_class(self) -> type[Table]:
         return DeltaTable
 
+    @property
+    def enum_table_class(self) -> type[EnumTable]:
+        return DeltaEnumTable
+
     @property
     def namespace_class(self) -> type[Namespace]:
         return DeltaNamespace
diff --git a/pysqlsync/dialect/postgresql/mutation.py b/pysqlsync/dialect/postgresql/mutation.py
index c979ff9..48f51d1 100644
--- a/pysqlsync/dialect/postgresql/mutation.py
+++ b/pysqlsync/dialect/postgresql/mutation.py
@@ -23,6 +23,9 @@ from .object_types import sql_quoted_string
 
 
 class PostgreSQLMutator(Mutator):
+    def comment_literal(self, text: str) -> str:
+        return sql_quoted_string(text)
+
     @override
     def is_column_migrated(self, source: Column, target: Column) -> Optional[bool]:
         is_migrated = super().is_column_migrated(source, target)
@@ -80,7 +83,7 @@ class PostgreSQLMutator(Mutator):
             else:
                 if source_desc != target_desc:
                     statements.append(
-                        f"COMMENT ON COLUMN {target.name}.{target_column.name} IS {sql_quoted_string(target_desc)};"
+                        f"COMMENT ON COLUMN {target.name}.{target_column.name} IS {self.comment_literal(target_desc)};"
                     )
 
         if target.description is None:
@@ -89,7 +92,7 @@ class PostgreSQLMutator(Mutator):
         else:
             if source.description != target.description:
                 statements.append(
-                    f"COMMENT ON TABLE {target.name} IS {sql_quoted_string(target.description)};"
+                    f"COMMENT ON TABLE {target.name} IS {self.comment_literal(target.description)};"
                 )
 
         return join_or_none(statements)
diff --git a/pysqlsync/dialect/postgresql/object_types.py b/pysqlsync/dialect/postgresql/object_types.py
index 89648f8..457c788 100644
--- a/pysqlsync/dialect/postgresql/object_types.py
+++ b/pysqlsync/dialect/postgresql/object_types.py
@@ -33,6 +33,9 @@ def sql_quoted_string(text: str) -> str:
 
 
 class PostgreSQLTable(Table):
+    def comment_literal(self, text: str) -> str:
+        return sql_quoted_string(text)
+
     def create_stmt(self) -> str:
         statements: list[str] = []
         statements.append(super().create_stmt())
@@ -40,12 +43,12 @@ class PostgreSQLTable(Table):
         # output comments for table and column objects
         if self.description is not None:
             statements.append(
-                f"COMMENT ON TABLE {self.name} IS {sql_quoted_string(self.description)};"
+                f"COMMENT ON TABLE {self.name} IS {self.comment_literal(self.description)};"
             )
         for column in self.columns.values():
             if column.description is not None:
                 statements.append(
-                    f"COMMENT ON COLUMN {self.name}.{column.name} IS {sql_quoted_string(column.description)};"
+                    f"COMMENT ON COLUMN {self.name}.{column.name} IS {self.comment_literal(column.description)};"
                 )
         return "\n".join(statements)
 
diff --git a/pysqlsync/dialect/redshift/generator.py b/pysqlsync/dialect/redshift/generator.py
index 579eee0..4676929 100644
--- a/pysqlsync/dialect/redshift/generator.py
+++ b/pysqlsync/dialect/redshift/generator.py
@@ -18,9 +18,9 @@ from pysqlsync.formation.py_to_sql import (
 from pysqlsync.model.data_types import SqlVariableCharacterType
 from pysqlsync.util.typing import override
 
-from ..postgresql.mutation import PostgreSQLMutator
-from ..postgresql.object_types import PostgreSQLObjectFactory
 from .data_types import RedshiftVariableBinaryType
+from .mutation import RedshiftMutator
+from .object_types import RedshiftObjectFactory
 
 
 class RedshiftGenerator(BaseGenerator):
@@ -31,8 +31,8 @@ class RedshiftGenerator(BaseGenerator):
     def __init__(self, options: GeneratorOptions) -> None:
         super().__init__(
             options,
-            PostgreSQLObjectFactory(),
-            PostgreSQLMutator(options.synchronization),
+            RedshiftObjectFactory(),
+            RedshiftMutator(options.synchronization),
         )
 
         self.check_enum_mode(matches=EnumMode.CHECK)
diff --git a/pysqlsync/dialect/redshift/mutation.py b/pysqlsync/dialect/redshift/mutation.py
new file mode 100644
index 0000000..52de398
--- /dev/null
+++ b/pysqlsync/dialect/redshift/mutation.py
@@ -0,0 +1,8 @@
+from pysqlsync.model.data_types import escape_backslash, quote
+
+from ..postgresql.mutation import PostgreSQLMutator
+
+
+class RedshiftMutator(PostgreSQLMutator):
+    def comment_literal(self, text: str) -> str:
+        return escape_backslash(quote(text))
diff --git a/pysqlsync/dialect/redshift/object_types.py b/pysqlsync/dialect/redshift/object_types.py
new file mode 100644
index 0000000..9cd2d94
--- /dev/null
+++ b/pysqlsync/dialect/redshift/object_types.py
@@ -0,0 +1,29 @@
+from typing import Any
+
+from pysqlsync.formation.object_types import EnumTable, Table
+from pysqlsync.model.data_types import constant, escape_backslash, quote
+
+from ..postgresql.object_types import PostgreSQLObjectFactory, PostgreSQLTable
+
+
+class RedshiftTable(PostgreSQLTable):
+    def comment_literal(self, text: str) -> str:
+        return escape_backslash(quote(text))
+
+
+class RedshiftEnumTable(EnumTable, RedshiftTable):
+    def constant(self, value: Any) -> str:
+        return escape_backslash(constant(value))
+
+
+class RedshiftObjectFactory(PostgreSQLObjectFactory):
+    def constant(self, value: Any) -> str:
+        return escape_backslash(constant(value))
+
+    @property
+    def table_class(self) -> type[Table]:
+        return RedshiftTable
+
+    @property
+    def enum_table_class(self) -> type[EnumTable]:
+        return RedshiftEnumTable
diff --git a/pysqlsync/dialect/snowflake/object_types.py b/pysqlsync/dialect/snowflake/object_types.py
index c9c3b8c..4e34de3 100644
--- a/pysqlsync/dialect/snowflake/object_types.py
+++ b/pysqlsync/dialect/snowflake/object_types.py
@@ -1,8 +1,8 @@
 import re
-from typing import Optional
+from typing import Any, Optional
 
-from pysqlsync.formation.object_types import Column, ObjectFactory, Table
-from pysqlsync.model.data_types import SqlTimestampType
+from pysqlsync.formation.object_types import Column, EnumTable, ObjectFactory, Table
+from pysqlsync.model.data_types import SqlTimestampType, constant, escape_backslash
 from pysqlsync.model.id_types import LocalId
 
 _sql_quoted_str_table = str.maketrans(
@@ -46,6 +46,11 @@ class SnowflakeTable(Table):
         return LocalId(f"pk_{self.name.local_id.replace('.', '_')}")
 
 
+class SnowflakeEnumTable(EnumTable):
+    def constant(self, value: Any) -> str:
+        return escape_backslash(constant(value))
+
+
 class SnowflakeColumn(Column):
     @property
     def default_expr(self) -> str:
@@ -79,6 +84,9 @@ class SnowflakeColumn(Column):
 
 
 class SnowflakeObjectFactory(ObjectFactory):
+    def constant(self, value: Any) -> str:
+        return escape_backslash(constant(value))
+
     @property
     def column_class(self) -> type[Column]:
         return SnowflakeColumn
@@ -86,3 +94,7 @@ class SnowflakeObjectFactory(ObjectFactory):
     @property
     def table_class(self) -> type[Table]:
         return SnowflakeTable
+
+    @property
+    def enum_table_class(self) -> type[EnumTable]:
+        return SnowflakeEnumTable
diff --git a/pysqlsync/model/data_types.py b/pysqlsync/model/data_types.py
index 7049a29..6ab0568 100644
--- a/pysqlsync/model/data_types.py
+++ b/pysqlsync/model/data_types.py
@@ -23,6 +23,12 @@ def quote(s: str) -> str:
     return "'" + s.replace("'", "''") + "'"
 
 
+def escape_backslash(literal: str) -> str:
+    "Adapts a string literal to a dialect in which backslash is an escape character."
+
+    return literal.replace("\\", "\\\\")
+
+
 def constant(v: Any) -> str:
     "Outputs a constant value."
 
-- 
2.43.0


From 7f2f803596b53cc868559e3208fac95fe1eb9b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:45 +0000
Subject: [PATCH 73/85] fix: column types depended on annotated types being the
 same object

---
 pysqlsync/formation/py_to_sql.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 1c0256f..4cc2f78 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -376,40 +376,40 @@ class DataclassConverter:
             return SqlIntegerType(8)
         if typ is float:
             return SqlDoubleType()
-        if typ is int8:
+        if typ == int8:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("int1"))
             else:
                 return SqlIntegerType(2)
-        if typ is int16:
+        if typ == int16:
             return SqlIntegerType(2)
-        if typ is int32:
+        if typ == int32:
             return SqlIntegerType(4)
-        if typ is int64:
+        if typ == int64:
             return SqlIntegerType(8)
-        if typ is uint8:
+        if typ == uint8:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint1"))
             else:
                 return SqlIntegerType(2)
-        if typ is uint16:
+        if typ == uint16:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint2"))
             else:
                 return SqlIntegerType(4)
-        if typ is uint32:
+        if typ == uint32:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint4"))
             else:
                 return SqlIntegerType(8)
-        if typ is uint64:
+        if typ == uint64:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint8"))
             else:
                 return SqlDecimalType(20, 0)
-        if typ is float32:
+        if typ == float32:
             return SqlRealType()
-        if typ is float64:
+        if typ == float64:
             return SqlDoubleType()
         if typ is str:
             return SqlVariableCharacterType()
-- 
2.43.0


From fe0bd032370c574266df2133bd6d91677d43eb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:45 +0000
Subject: [PATCH 74/85] fix: references by name were not recognised as
 references in unique fields

---
 pysqlsync/formation/inspection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysqlsync/formation/inspection.py b/pysqlsync/formation/inspection.py
index 82a3366..d8cf9e7 100644
--- a/pysqlsync/formation/inspection.py
+++ b/pysqlsync/formation/inspection.py
@@ -81,6 +81,7 @@ def is_reference_type(typ: Any, cls: type) -> bool:
     :param cls: The context for evaluating forward references.
     """
 
+    typ = evaluate_member_type(typ, cls)
     if is_entity_type(typ):
         return True
     elif is_type_union(typ):
-- 
2.43.0


From 52233eeaedd4c7a50eb7b70e6ea0be22e48384f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:45 +0000
Subject: [PATCH 75/85] fix: source code written for classes lacked imports,
 enumerations and valid default values

---
 pysqlsync/python_types.py | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/python_types.py b/pysqlsync/python_types.py
index ccb9c5e..c6fe582 100644
--- a/pysqlsync/python_types.py
+++ b/pysqlsync/python_types.py
@@ -6,6 +6,7 @@ import re
 import sys
 import textwrap
 import typing
+from datetime import date, time, timedelta
 from types import ModuleType
 from typing import TextIO
 
@@ -25,20 +26,31 @@ def module_to_stream(module: ModuleType, target: TextIO) -> None:
     print("from __future__ import annotations", file=target)
     print("import dataclasses", file=target)
     print("import enum", file=target)
-    print("from datetime import datetime, date, time", file=target)
+    print("from dataclasses import field", file=target)
+    print("from datetime import date, datetime, time, timedelta, timezone", file=target)
     print("from decimal import Decimal", file=target)
+    print("from ipaddress import IPv4Address, IPv6Address", file=target)
     print("from uuid import UUID", file=target)
     print(
-        "from typing import Annotated, Dict, List, Literal, Optional, Union",
+        "from typing import Annotated, Any, Dict, List, Literal, Optional, Union",
         file=target,
     )
+    print("from strong_typing.auxiliary import *", file=target)
+    print("from strong_typing.core import JsonType", file=target)
     print(
-        "from strong_typing.auxiliary import int16, int32, int64, float32, float64, MaxLength, Precision, TimePrecision",
+        "from pysqlsync.model.key_types import DEFAULT, DefaultTag, IdentityTag, PrimaryKeyTag, UniqueTag",
         file=target,
     )
     print(file=target)
+    print("PrimaryKey = PrimaryKeyTag()", file=target)
+    print("Identity = IdentityTag()", file=target)
+    print("Unique = UniqueTag()", file=target)
+    print(file=target)
 
-    for cls in get_module_classes(module):
+    # enumerations come first because data-classes may have their members as default values
+    classes = get_module_classes(module)
+    classes.sort(key=lambda cls: not is_type_enum(cls))
+    for cls in classes:
         if is_type_enum(cls):
             enum_class_to_stream(cls, target)
         elif is_dataclass_type(cls):
@@ -109,7 +121,7 @@ def dataclass_to_stream(typ: type[DataclassInstance], target: TextIO) -> None:
 
         field_initializer: dict[str, str] = {}
         if field.default is not dataclasses.MISSING:
-            field_initializer["default"] = repr(field.default)
+            field_initializer["default"] = _value_to_str(field.default)
         if field.default_factory is not dataclasses.MISSING:
             field_initializer["default_factory"] = fmt.python_type_to_str(
                 field.default_factory
@@ -120,7 +132,7 @@ def dataclass_to_stream(typ: type[DataclassInstance], target: TextIO) -> None:
         if not field_initializer:
             initializer = ""
         elif field.default is not dataclasses.MISSING and len(field_initializer) == 1:
-            initializer = f" = {repr(field.default)}"
+            initializer = f" = {_value_to_str(field.default)}"
         else:
             initializer_list = ", ".join(
                 f"{key} = {value}" for key, value in field_initializer.items()
@@ -182,10 +194,24 @@ def enum_class_to_code(enum_class: type[enum.Enum]) -> str:
         return out.getvalue()
 
 
+def _value_to_str(value: typing.Any) -> str:
+    "Returns a Python expression for a default value, with the names that a generated module imports."
+
+    if isinstance(value, enum.Enum):
+        return f"{type(value).__name__}.{value.name}"
+    elif isinstance(value, (date, time, timedelta)):
+        return repr(value).replace("datetime.", "")
+    else:
+        return repr(value)
+
+
 def _wrap_print(text: str, file: TextIO) -> None:
     if not text:
         return
 
+    # escape characters that have a special meaning in a doc-string
+    text = text.replace("\\", "\\\\").replace('"', '\\"') if re.search(r'\\|"""|"$', text) else text
+
     # wrap long lines
     for line in textwrap.wrap(
         text,
-- 
2.43.0


From 0717f42a9729e4c0027ae4232f54ca1d84f2dafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:45 +0000
Subject: [PATCH 76/85] fix: classes made from tables lost keys, types, default
 values and names of columns

---
 pysqlsync/formation/sql_to_py.py | 157 +++++++++++++++++++++++++++----
 1 file changed, 137 insertions(+), 20 deletions(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index 3e80ad7..af6faca 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -1,25 +1,33 @@
 import dataclasses
 import datetime
 import decimal
+import ipaddress
 import keyword
+import re
 import sys
 import types
 import typing
 from dataclasses import dataclass
 from io import StringIO
-from typing import Annotated, Any, Optional, Union
+from typing import Annotated, Any, ForwardRef, Optional, Union
 from uuid import UUID
 
 from strong_typing.auxiliary import (
+    IntegerRange,
     Length,
     MaxLength,
     Precision,
     TimePrecision,
     float32,
     float64,
+    int8,
     int16,
     int32,
     int64,
+    uint8,
+    uint16,
+    uint32,
+    uint64,
 )
 from strong_typing.core import JsonType
 from strong_typing.inspection import DataclassInstance, TypeLike
@@ -31,33 +39,50 @@ from ..model.data_types import (
     SqlDateType,
     SqlDecimalType,
     SqlDoubleType,
+    SqlFixedBinaryType,
     SqlFixedCharacterType,
     SqlFloatType,
     SqlIntegerType,
+    SqlIntervalType,
     SqlJsonType,
     SqlRealType,
     SqlTimestampType,
     SqlTimeType,
     SqlUserDefinedType,
     SqlUuidType,
+    SqlVariableBinaryType,
     SqlVariableCharacterType,
 )
 from ..model.id_types import SupportsQualifiedId
-from ..model.key_types import PrimaryKey
+from ..model.key_types import Identity, PrimaryKey, Unique
 from .object_types import (
     Column,
     DiscriminatedConstraint,
     ForeignConstraint,
     ReferenceConstraint,
     Table,
+    UniqueConstraint,
 )
 
+_GLOBAL_TYPES: dict[str, TypeLike] = {
+    "inet": ipaddress.IPv4Address,
+    "int1": int8,
+    "uint1": uint8,
+    "uint2": uint16,
+    "uint4": uint32,
+    "uint8": uint64,
+}
+
 
 def sql_type_to_python(sql_type: SqlDataType) -> TypeLike:
     if isinstance(sql_type, SqlBooleanType):
         return bool
     elif isinstance(sql_type, SqlIntegerType):
-        if sql_type.width == 2:
+        if sql_type.minimum is not None or sql_type.maximum is not None:
+            return Annotated[int, IntegerRange(sql_type.minimum, sql_type.maximum)]
+        elif sql_type.width == 1:
+            return int8
+        elif sql_type.width == 2:
             return int16
         elif sql_type.width == 4:
             return int32
@@ -73,6 +98,10 @@ def sql_type_to_python(sql_type: SqlDataType) -> TypeLike:
             return Annotated[float, Precision(sql_type.precision)]
         return float
     elif isinstance(sql_type, SqlDecimalType):
+        if sql_type.precision is not None:
+            return Annotated[
+                decimal.Decimal, Precision(sql_type.precision, sql_type.scale or 0)
+            ]
         return decimal.Decimal
     elif isinstance(sql_type, SqlTimestampType):
         if sql_type.precision is not None:
@@ -92,14 +121,22 @@ def sql_type_to_python(sql_type: SqlDataType) -> TypeLike:
         if sql_type.limit is not None:
             return Annotated[str, MaxLength(sql_type.limit)]
         return str
+    elif isinstance(sql_type, SqlIntervalType):
+        return datetime.timedelta
+    elif isinstance(sql_type, (SqlFixedBinaryType, SqlVariableBinaryType)):
+        return bytes
     elif isinstance(sql_type, SqlUuidType):
         return UUID
     elif isinstance(sql_type, SqlJsonType):
         return JsonType
     elif isinstance(sql_type, SqlUserDefinedType):
+        if sql_type.ref.scope_id is None:
+            global_type = _GLOBAL_TYPES.get(sql_type.ref.local_id)
+            if global_type is not None:
+                return global_type
         return sql_type.ref.compact_id
     elif isinstance(sql_type, SqlArrayType):
-        item_type = (sql_type_to_python(sql_type.element_type),)
+        item_type = sql_type_to_python(sql_type.element_type)
         return list[item_type]  # type: ignore
 
     raise TypeError(f"unrecognized SQL type: {sql_type}")
@@ -108,9 +145,62 @@ def sql_type_to_python(sql_type: SqlDataType) -> TypeLike:
 def safe_id(id: str) -> str:
     "Apply PEP 8: single trailing underscore to avoid conflicts with Python keyword"
 
+    if not id.isidentifier():
+        id = re.sub(r"\W", "_", id)
+        if not id.isidentifier():
+            id = f"_{id}"
     return f"{id}_" if keyword.iskeyword(id) else id
 
 
+def safe_field_ids(ids: list[str]) -> dict[str, str]:
+    "Maps column names to field names such that distinct columns have distinct fields."
+
+    result: dict[str, str] = {id: id for id in ids if safe_id(id) == id}
+    taken = set(result.values())
+    for id in ids:
+        if id in result:
+            continue
+        field_id = safe_id(id)
+        while field_id in taken:
+            field_id = f"{field_id}_"
+        taken.add(field_id)
+        result[id] = field_id
+    return result
+
+
+def sql_default_to_python(sql_type: SqlDataType, default: str) -> Any:
+    """
+    Finds the Python value for the default value of a column.
+
+    :returns: A value, or `MISSING` if the expression is not a constant.
+    """
+
+    m = re.fullmatch(r"'((?:[^']|'')*)'", default)
+    text = m.group(1).replace("''", "'") if m else None
+    try:
+        if text is None:
+            if isinstance(sql_type, SqlBooleanType):
+                return {"TRUE": True, "FALSE": False}[default.upper()]
+            elif isinstance(sql_type, SqlIntegerType):
+                return int(default)
+            elif isinstance(sql_type, (SqlRealType, SqlDoubleType, SqlFloatType)):
+                return float(default)
+            elif isinstance(sql_type, SqlDecimalType):
+                return decimal.Decimal(default)
+        else:
+            if isinstance(sql_type, (SqlFixedCharacterType, SqlVariableCharacterType)):
+                return text
+            elif isinstance(sql_type, SqlTimestampType):
+                return datetime.datetime.fromisoformat(text)
+            elif isinstance(sql_type, SqlDateType):
+                return datetime.date.fromisoformat(text)
+            elif isinstance(sql_type, SqlTimeType):
+                return datetime.time.fromisoformat(text)
+    except (ArithmeticError, KeyError, ValueError):
+        pass
+    return dataclasses.MISSING
+
+
 @dataclass
 class SqlConverterOptions:
     namespaces: dict[Optional[str], types.ModuleType]
@@ -122,8 +212,18 @@ class SqlConverter:
     def __init__(self, options: SqlConverterOptions) -> None:
         self.options = options
 
-    def qual_to_module(self, id: SupportsQualifiedId) -> str:
-        return f"{self.options.namespaces[id.scope_id].__name__}.{safe_id(id.local_id)}"
+    def qual_to_module(
+        self, id: SupportsQualifiedId, context: types.ModuleType
+    ) -> str:
+        module = self.options.namespaces[id.scope_id]
+        class_name = safe_id(id.local_id)
+        if module is context:
+            return class_name
+
+        # make the expression meaningful in the module in which it is evaluated
+        root = module.__name__.split(".")[0]
+        context.__dict__.setdefault(root, sys.modules[root])
+        return f"{module.__name__}.{class_name}"
 
     def column_to_field(
         self, table: Table, column: Column
@@ -134,19 +234,22 @@ class SqlConverter:
         :param column: The database column from which to produce a dataclass field.
         """
 
-        field_name = safe_id(column.name.local_id)
+        field_ids = safe_field_ids([c.name.local_id for c in table.columns.values()])
+        field_name = field_ids[column.name.local_id]
+        module = self.options.namespaces[table.name.scope_id]
 
         default: Any = dataclasses.MISSING
         if column.default is not None:
-            default = column.default
-
-        field_type = sql_type_to_python(column.data_type)
-        if column.name == table.primary_key:
-            field_type = PrimaryKey[(field_type,)]  # type: ignore
-        elif column.nullable:
-            field_type = Optional[field_type]
+            default = sql_default_to_python(column.data_type, column.default)
 
+        field_type: Any = sql_type_to_python(column.data_type)
+        is_unique = False
         for c in table.constraints.values():
+            if isinstance(c, UniqueConstraint):
+                if c.unique_columns == (column.name,):
+                    is_unique = True
+                continue
+
             if not isinstance(c, ReferenceConstraint):
                 continue
 
@@ -154,11 +257,24 @@ class SqlConverter:
                 continue
 
             if isinstance(c, ForeignConstraint):
-                field_type = self.qual_to_module(c.reference.table)
+                field_type = self.qual_to_module(c.reference.table, module)
             elif isinstance(c, DiscriminatedConstraint):
-                union_types = tuple(self.qual_to_module(r.table) for r in c.references)
+                union_types = tuple(
+                    self.qual_to_module(r.table, module) for r in c.references
+                )
                 field_type = Union[union_types]
 
+        if isinstance(field_type, str):
+            field_type = ForwardRef(field_type)
+        if column.identity:
+            field_type = Identity[field_type]
+        if table.primary_key == (column.name,):
+            field_type = PrimaryKey[field_type]
+        elif column.nullable:
+            field_type = Optional[field_type]
+        if is_unique:
+            field_type = Unique[field_type]
+
         # use cast to ensure compatibility with signature of `make_dataclass`
         data_type = typing.cast(type, field_type)
 
@@ -190,10 +306,11 @@ class SqlConverter:
                 class_name, fields, namespace={"__module__": module.__name__}
             )
         with StringIO() as out:
-            for field in dataclasses.fields(typ):
-                description = field.metadata.get("description")
-                if description is not None:
-                    print(f":param {field.name}: {description}", file=out)
+            field_ids = safe_field_ids([c.name.local_id for c in table.columns.values()])
+            for column in table.columns.values():
+                if column.description is not None:
+                    field_name = field_ids[column.name.local_id]
+                    print(f":param {field_name}: {column.description}", file=out)
             paramstring = out.getvalue()
         with StringIO() as out:
             if table.description:
-- 
2.43.0


From 4894f9f35bc3678bbcfb1b851d2894a619ca9017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:54 +0000
Subject: [PATCH 77/85] fix: small floating-point default values were set again
 on each synchronisation

---
 pysqlsync/model/data_types.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/model/data_types.py b/pysqlsync/model/data_types.py
index 6ab0568..d65e156 100644
--- a/pysqlsync/model/data_types.py
+++ b/pysqlsync/model/data_types.py
@@ -36,10 +36,13 @@ def constant(v: Any) -> str:
         return quote(v)
     elif isinstance(v, bool):
         return "TRUE" if v else "FALSE"
-    elif isinstance(v, (int, float)):
+    elif isinstance(v, int):
         return str(v)
+    elif isinstance(v, float):
+        # database engines report small numbers without an exponent
+        return f"{decimal.Decimal(str(v)):f}" if 1e-15 < abs(v) < 1e15 else str(v)
     elif isinstance(v, decimal.Decimal):
-        return str(v)
+        return f"{v:f}"
     elif isinstance(v, datetime.datetime):
         if v.tzinfo is not None:
             timestamp = v.astimezone(tz=datetime.timezone.utc).replace(tzinfo=None)
-- 
2.43.0


From 4d4f4821b446867514a5462cd947e0bb501978f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:54 +0000
Subject: [PATCH 78/85] fix: decimal default values were set again on each
 synchronisation of MySQL

---
 pysqlsync/dialect/mysql/object_types.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mysql/object_types.py b/pysqlsync/dialect/mysql/object_types.py
index 0589323..f511ef3 100644
--- a/pysqlsync/dialect/mysql/object_types.py
+++ b/pysqlsync/dialect/mysql/object_types.py
@@ -1,3 +1,4 @@
+import decimal
 from dataclasses import dataclass
 from typing import Any, Optional
 
@@ -8,7 +9,14 @@ from pysqlsync.formation.object_types import (
     ObjectFactory,
     Table,
 )
-from pysqlsync.model.data_types import SqlEnumType, constant, quote
+from pysqlsync.model.data_types import (
+    SqlDecimalType,
+    SqlDoubleType,
+    SqlEnumType,
+    SqlRealType,
+    constant,
+    quote,
+)
 from pysqlsync.model.id_types import LocalId
 
 from .data_types import mysql_literal
@@ -74,6 +82,14 @@ class MySQLColumn(Column):
             return "1"
         elif self.default == "FALSE":
             return "0"
+        elif self.default is not None and isinstance(
+            self.data_type, (SqlDecimalType, SqlDoubleType, SqlRealType)
+        ):
+            # database engine reports numbers with as many digits as the column has
+            try:
+                return f"{decimal.Decimal(self.default).normalize():f}"
+            except decimal.InvalidOperation:
+                return self.default
         else:
             return self.default
 
-- 
2.43.0


From 0ca4ce7cdb110150d8d2cb16b0bbe224965afbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:54 +0000
Subject: [PATCH 79/85] fix: date and time default values were set again on
 each synchronisation of Oracle

---
 pysqlsync/dialect/oracle/mutation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/oracle/mutation.py b/pysqlsync/dialect/oracle/mutation.py
index 31a0dc1..acf60a0 100644
--- a/pysqlsync/dialect/oracle/mutation.py
+++ b/pysqlsync/dialect/oracle/mutation.py
@@ -17,9 +17,12 @@ class OracleMutator(Mutator):
         changes: list[str] = []
         if source.data_type != target.data_type:
             changes.append(str(target.data_type))
-        if source.default != target.default:
-            if target.default is not None:
-                changes.append(f"DEFAULT {target.default_expr}")
+        # compare expressions; discovered values of a date type have a prefix
+        source_default = source.default_expr if source.default is not None else None
+        target_default = target.default_expr if target.default is not None else None
+        if source_default != target_default:
+            if target_default is not None:
+                changes.append(f"DEFAULT {target_default}")
             else:
                 changes.append("DEFAULT NULL")
         if source.nullable != target.nullable:
-- 
2.43.0


From fe6ed537112d89bf8ee511a1a85d942a1d40706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:18 +0000
Subject: [PATCH 80/85] fix: Oracle filled the fields of a data class by
 position instead of by name

---
 pysqlsync/dialect/oracle/connection.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/dialect/oracle/connection.py b/pysqlsync/dialect/oracle/connection.py
index 201948a..e22c48d 100644
--- a/pysqlsync/dialect/oracle/connection.py
+++ b/pysqlsync/dialect/oracle/connection.py
@@ -15,7 +15,7 @@ from pysqlsync.base import (
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.data_types import escape_like
 from pysqlsync.model.id_types import LocalId
-from pysqlsync.resultset import resultset_unwrap_tuple
+from pysqlsync.resultset import resultset_unwrap_dict, resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
 from pysqlsync.util.script import split_script
 from pysqlsync.util.typing import override
@@ -127,13 +127,21 @@ class OracleContext(BaseContext):
     def _query_all(self, signature: type[T], statement: str) -> list[T]:
         with self.native_connection.cursor() as cur:
             cur.execute(statement)
-            if is_dataclass_type(signature):
-                cur.rowfactory = lambda *args: signature(*args)
-
             records = cur.fetchall()
 
             if is_dataclass_type(signature):
-                return records
+                # names of columns that are not quoted in the query are in upper case
+                fields = signature.__dataclass_fields__
+                upper_fields = {name.upper(): name for name in fields}
+                names = [
+                    column[0]
+                    if column[0] in fields
+                    else upper_fields.get(column[0], column[0])
+                    for column in cur.description
+                ]
+                return resultset_unwrap_dict(
+                    signature, (dict(zip(names, record)) for record in records)
+                )  # type: ignore
             else:
                 return resultset_unwrap_tuple(signature, records)
 
-- 
2.43.0


From 3057129673c73a4f28c91173090c5c5d461b8306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:18 +0000
Subject: [PATCH 81/85] fix: no sample text of a minimum length over 255 could
 be generated

---
 pysqlsync/data/generator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/data/generator.py b/pysqlsync/data/generator.py
index 8d6dec5..07d94d3 100644
--- a/pysqlsync/data/generator.py
+++ b/pysqlsync/data/generator.py
@@ -262,7 +262,11 @@ class RandomGenerator:
             # use a minimum length of at least 1; Oracle treats empty string as equivalent to NULL
             min_length = min_length_tag.value if min_length_tag is not None else 1
             max_length_tag = get_annotation(field_type, MaxLength)
-            max_length = max_length_tag.value if max_length_tag is not None else 255
+            max_length = (
+                max_length_tag.value
+                if max_length_tag is not None
+                else max(255, min_length)
+            )
             return lambda _: random_alphanumeric_str(min_length, max_length)
         elif plain_type is decimal.Decimal:
             precision = get_annotation(field_type, Precision)
-- 
2.43.0


From 56936cbf0fac69d9a0f72049bae92f72f46cd104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:18 +0000
Subject: [PATCH 82/85] fix: an empty SSL mode in a connection string was
 ignored

---
 pysqlsync/factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/factory.py b/pysqlsync/factory.py
index ef4e3f3..0fe67e4 100644
--- a/pysqlsync/factory.py
+++ b/pysqlsync/factory.py
@@ -84,7 +84,9 @@ def get_parameters(url: str) -> tuple[str, ConnectionParameters]:
 
     ssl: Optional[ConnectionSSLMode] = None
     if parts.query:
-        query = parse_qs(parts.query, strict_parsing=True)
+        query = parse_qs(
+            parts.query, keep_blank_values=True, strict_parsing=True
+        )
         if "ssl" in query:
             if len(query["ssl"]) != 1:
                 raise ValueError(
-- 
2.43.0


From 009d5d2d6a2ea52ae8a763d975a5072c0e0e0c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:18 +0000
Subject: [PATCH 83/85] fix: a changed description of a composite type member
 altered the type of the member

---
 pysqlsync/dialect/postgresql/mutation.py | 19 +++++++++++++++++++
 pysqlsync/formation/mutation.py          |  2 +-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/postgresql/mutation.py b/pysqlsync/dialect/postgresql/mutation.py
index 48f51d1..4b87c55 100644
--- a/pysqlsync/dialect/postgresql/mutation.py
+++ b/pysqlsync/dialect/postgresql/mutation.py
@@ -103,6 +103,25 @@ class PostgreSQLMutator(Mutator):
         statements: StatementList = StatementList()
         statements.append(super().mutate_struct_stmt(source, target))
 
+        for target_member in target.members.values():
+            source_member = source.members.get(target_member.name.local_id)
+
+            source_desc = (
+                source_member.description if source_member is not None else None
+            )
+            target_desc = target_member.description
+
+            if target_desc is None:
+                if source_desc is not None:
+                    statements.append(
+                        f"COMMENT ON COLUMN {target.name}.{target_member.name} IS NULL;"
+                    )
+            else:
+                if source_desc != target_desc:
+                    statements.append(
+                        f"COMMENT ON COLUMN {target.name}.{target_member.name} IS {sql_quoted_string(target_desc)};"
+                    )
+
         if target.description is None:
             if source.description is not None:
                 statements.append(f"COMMENT ON TYPE {target.name} IS NULL;")
diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index ae4c94c..a864ee9 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -92,7 +92,7 @@ class Mutator:
             for member in source.members.difference(target.members)
         )
         for source_member, target_member in source.members.intersection(target.members):
-            if source_member != target_member:
+            if source_member.data_type != target_member.data_type:
                 statements.append(
                     f"ALTER ATTRIBUTE {source_member.name} SET DATA TYPE {target_member.data_type}"
                 )
-- 
2.43.0


From ac74bae48b67e047bda07339b7b3e8e0ec8abdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:11 +0000
Subject: [PATCH 84/85] fix: timestamps with an offset and integer enumerations
 in composite values were refused by the driver

---
 pysqlsync/base.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 3879076..d5eceb0 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -128,16 +128,25 @@ def _to_utc(value: datetime.datetime) -> datetime.datetime:
         return value
 
 
-def _to_composite(value: Any) -> Any:
-    "Converts elements of a list or set, and members of a structure into types recognized by a database driver."
+def _to_composite(value: Any, enum_as_label: bool) -> Any:
+    """
+    Converts elements of a list or set, and members of a structure into types recognized by a database driver.
+
+    :param enum_as_label: Whether enumerations are database types, whose values are labels.
+    """
 
     if isinstance(value, enum.Enum):
-        return value.value
+        return str(value.value) if enum_as_label else value.value
+    elif isinstance(value, datetime.datetime):
+        # elements and members have a timestamp type without time zone
+        return _to_utc(value).replace(tzinfo=None)
     elif isinstance(value, (list, set, frozenset)):
-        return [_to_composite(item) for item in value]
+        return [_to_composite(item, enum_as_label) for item in value]
+    elif isinstance(value, dict):
+        return {k: _to_composite(v, enum_as_label) for k, v in value.items()}
     elif is_dataclass_instance(value):
         return {
-            f.name: _to_composite(getattr(value, f.name))
+            f.name: _to_composite(getattr(value, f.name), enum_as_label)
             for f in dataclasses.fields(value)
         }
     else:
@@ -636,6 +645,7 @@ class BaseGenerator(abc.ABC):
         elif is_composite and isinstance(
             column.data_type, (SqlArrayType, SqlUserDefinedType)
         ):
+            enum_as_label = self.converter.options.enum_mode is EnumMode.TYPE
             if isinstance(column.data_type, SqlArrayType) and isinstance(
                 column.data_type.element_type, SqlUserDefinedType
             ):
@@ -643,12 +653,12 @@ class BaseGenerator(abc.ABC):
                     (
                         str(item.value)
                         if isinstance(item, enum.Enum)
-                        else _to_composite(item)
+                        else _to_composite(item, enum_as_label)
                     )
                     for item in field
                 ]
             else:
-                return _to_composite
+                return lambda field: _to_composite(field, enum_as_label)
 
         if is_type_enum(field_type) or (
             is_type_union(field_type)
-- 
2.43.0


From 63650c33f8cd036137295a98b5ba78ca6f668759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:20 +0000
Subject: [PATCH 85/85] fix: types of a mapping of some of the fields could not
 be obtained to read what was written with that mapping

---
 pysqlsync/data/exchange.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysqlsync/data/exchange.py b/pysqlsync/data/exchange.py
index eba2b7b..57ddf0c 100644
--- a/pysqlsync/data/exchange.py
+++ b/pysqlsync/data/exchange.py
@@ -99,6 +99,7 @@ def fields_to_types(
             reference_to_key(field.type, entity_type)
         ).tsv_type
         for field in dataclass_fields(entity_type)
+        if field.name in field_mapping
     }
 
 
-- 
2.43.0

