"Writes /verif/properties.jsonl (kept as a script so that the long strings stay readable)."
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        anchors["observe_at"] = observe
    anchors["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": anchors})


prop("P01", "Schema synchronisation runs cleanly and reaches the desired schema",
     "For every history of schema versions, the SQL script produced to move a database from one version to the next is accepted statement by statement, "
     "in order, by a database that enforces existence, uniqueness and dependency rules. After the script the database has exactly the objects of the new version: "
     "tables, columns with their types, nullability, defaults and identity, keys, unique, foreign-key and check constraints, enumeration and composite types, and comments where the dialect stores them.",
     ["histories", "configurations"],
     "every path up to the bound through a graph of schema versions (features added, dropped, widened, made nullable, referenced, unreferenced, moved between namespaces), times dialect, times enumeration/struct/array mode",
     "The stable tests compare the script text of a few hand-written pairs of catalogs; nothing executes a script, no test chains more than one change, and statement order errors only show up for specific pairs of old and new schema.",
     ["pysqlsync/formation/mutation.py", "pysqlsync/formation/object_types.py", "pysqlsync/dialect/postgresql/mutation.py", "pysqlsync/dialect/mysql/mutation.py", "pysqlsync/dialect/mssql/mutation.py", "pysqlsync/dialect/oracle/mutation.py", "pysqlsync/base.py"],
     [("catalog, namespace, table, column diff", "pysqlsync/formation/mutation.py"), ("statement builders", "pysqlsync/formation/object_types.py"), ("create / synchronize entry points", "pysqlsync/base.py")],
     ["text of the statements passed to the database driver", "structure of the database after executing them"])

prop("P02", "Synchronising an up-to-date database does nothing",
     "After a successful synchronisation with a set of Python classes, discovering the database again and synchronising it with the same classes executes no data-definition statement at all. "
     "Computing a change script between two equal schema descriptions yields no script.",
     ["histories", "configurations"],
     "every schema version of the bounded universe reached by every path of one or two synchronisations, times dialect and mode, with the database catalog served to the real discovery queries",
     "Discovery and synchronisation tests need live servers and are skipped in the stable suite; idempotence depends on the agreement between what is written and what is read back for each type, default, constraint and namespace.",
     ["pysqlsync/base.py", "pysqlsync/formation/mutation.py", "pysqlsync/formation/discovery.py", "pysqlsync/formation/data_types.py", "pysqlsync/dialect/postgresql/discovery.py", "pysqlsync/dialect/mysql/discovery.py", "pysqlsync/dialect/mssql/discovery.py", "pysqlsync/dialect/oracle/discovery.py"],
     [("Explorer.synchronize", "pysqlsync/base.py"), ("discovery queries and type reconstruction", "pysqlsync/dialect/*/discovery.py, pysqlsync/formation/data_types.py"), ("equality of model objects", "pysqlsync/formation/object_types.py, pysqlsync/model/data_types.py")],
     ["statements passed to the database driver during the second synchronisation"])

prop("P03", "Drop permissions are honoured",
     "When the options forbid dropping tables, enumeration types, composite types or namespaces, no generated script drops, renames away or strips constraints from an object of a forbidden kind that the new schema no longer mentions; it stays usable with its data. "
     "The forbidden kinds do not affect the rest of the change: everything else of the new schema is reached, and permitted kinds are dropped.",
     ["configurations", "histories"],
     "all 16 combinations of the four permissions, times every pair of schema versions of the bounded universe, times dialect",
     "A single stable test exercises each switch at most once on one pair of schemas; combinations and their interplay with references, constraints and namespaces are not reached.",
     ["pysqlsync/formation/mutation.py", "pysqlsync/base.py"],
     [("allow_drop_* switches", "pysqlsync/formation/mutation.py"), ("options passed to each dialect's mutator", "pysqlsync/dialect/*/generator.py")],
     ["objects and rows in the database after the script"])

prop("P04", "Schema changes keep the data that both versions have a place for",
     "Executing the script of any supported schema change on a populated database keeps every row of every table present in both versions, and every value of every column present in both versions. "
     "When a column changes from an enumeration value to a lookup-table reference, each row's reference resolves to the very value the row held before, and every value of the former enumeration type is in the lookup table.",
     ["histories", "inputs"],
     "every pair (and bounded path) of schema versions times a set of populated tables including NULLs and repeated values, times dialect",
     "No stable test executes a change script on data; migration is asserted as text for one example per dialect.",
     ["pysqlsync/formation/mutation.py", "pysqlsync/dialect/postgresql/mutation.py", "pysqlsync/dialect/mysql/mutation.py"],
     [("migrate_enum_stmt, migrate_column_stmt", "pysqlsync/dialect/*/mutation.py"), ("soft and hard drop", "pysqlsync/formation/object_types.py")],
     ["rows of the database before and after the script"])

prop("P05", "Creation scripts run for any class graph, in any declaration order",
     "For any set of related classes, including self references, mutual references, references across namespaces, shared enumerations and composite types nested in others, the creation script is accepted statement by statement by an empty database, creating every object the classes need, and dropping everything returns the database to empty. "
     "The schema created does not depend on the order in which the classes are listed, and equal inputs give equal scripts.",
     ["inputs", "configurations"],
     "all reference graphs over up to three entity classes (self and mutual references included) placed in one or two namespaces, all orders of the class list, times dialect, times mode",
     "Tests use a handful of fixed modules listed in one order and compare text; they do not execute the script against any notion of a database.",
     ["pysqlsync/formation/py_to_sql.py", "pysqlsync/formation/object_types.py", "pysqlsync/formation/mutation.py", "pysqlsync/formation/inspection.py"],
     [("dependency collection and topological sorting", "pysqlsync/formation/py_to_sql.py"), ("constraints separated from table creation", "pysqlsync/formation/object_types.py"), ("namespace ordering", "pysqlsync/formation/object_types.py")],
     ["statements passed to the database driver", "objects of the database afterwards"])

prop("P06", "Inserting, upserting and deleting behave like operations on a keyed map",
     "Over any sequence of insert, upsert and delete operations, given as objects or as rows, the table contents equal those of a map from key to record: an insert adds every record, an upsert replaces exactly the supplied non-key columns of a record whose key exists and adds it otherwise, a delete removes exactly the records with the given keys. "
     "Columns that an operation does not supply keep their stored value when a record is updated and take their default or NULL when it is added, whatever the order in which the columns are supplied; an operation that lacks a required value may be rejected, but changes no existing record. The effect of an operation that has returned is visible to other connections.",
     ["histories", "inputs"],
     "all operation sequences up to the bound over small key and value domains, all column subsets and orders, times table shapes (unique column, identity key, key only, foreign key), times dialect",
     "Data operations run only in integration tests that need a server and are skipped; the stable suite never executes a data statement.",
     ["pysqlsync/base.py", "pysqlsync/dialect/postgresql/generator.py", "pysqlsync/dialect/postgresql/connection.py", "pysqlsync/dialect/mysql/generator.py", "pysqlsync/dialect/mssql/connection.py", "pysqlsync/dialect/oracle/connection.py"],
     [("insert / merge / upsert / delete statement builders", "pysqlsync/base.py, pysqlsync/dialect/*/generator.py"), ("record generation, selection and ordering", "pysqlsync/base.py"), ("bulk copy", "pysqlsync/dialect/postgresql/connection.py")],
     ["rows of the database after each operation"])

prop("P07", "Every record reaches the database exactly once and in order",
     "Whatever the number of records, the batch size, the kind of source (list, generator, asynchronous generator) and the selected columns, each source record is delivered to the database exactly once, in source order, with exactly the selected fields in the selected order and missing values passed as NULL. "
     "No batch is empty or larger than the batch size, each source element is consumed once, and a failing source or database stops the operation with an error, after whole batches that precede the failure (of the batch that the database refuses, a driver may have applied part).",
     ["inputs", "fault_sequences"],
     "all source lengths from 0 past several batches for every small batch size, every source kind, every subset of skipped fields, every position of a failure in the source or in the database, through every dialect's driver",
     "Stable tests never batch: the batch size is 100000 and no driver is exercised, so boundary conditions at batch edges are not reached.",
     ["pysqlsync/base.py", "pysqlsync/dialect/postgresql/connection.py", "pysqlsync/dialect/mysql/connection.py", "pysqlsync/dialect/mssql/connection.py", "pysqlsync/dialect/oracle/connection.py"],
     [("data sources and transformers", "pysqlsync/base.py"), ("execution in batches", "pysqlsync/dialect/*/connection.py")],
     ["parameter rows received by the database driver"])

prop("P08", "Lookup tables map every enumeration string to one stable identifier",
     "After any sequence of row insertions and upserts through a column that references a lookup table, from one or several connections and under any interleaving of their database calls, each stored reference resolves to exactly the string supplied for that row, and NULL stays NULL. "
     "The lookup table holds each string ever supplied exactly once, and an identifier, once assigned, never changes meaning.",
     ["histories", "schedules"],
     "all sequences of batches over a small alphabet of strings and NULL, all splits into batches and calls, and all interleavings of the database calls of two concurrent writers, times dialect",
     "Lookup columns are only exercised by skipped integration tests, sequentially; interleavings of concurrent writers are reached by no test.",
     ["pysqlsync/base.py", "pysqlsync/formation/object_types.py"],
     [("EnumTransformer and lookup merge", "pysqlsync/base.py"), ("lookup table recognition", "pysqlsync/formation/object_types.py")],
     ["rows of the lookup table and of the referencing table"])

prop("P09", "Names and literal values survive quoting",
     "Any table, column, namespace, constraint or enumeration name and any text value, comment or pattern embedded in generated SQL is read back by the target database's lexical rules as exactly the original string, without altering the surrounding statement. "
     "A pattern built from a namespace prefix matches exactly the names that start with that prefix.",
     ["inputs"],
     "all strings up to a bounded length over an alphabet of quotes, backslash, newline, semicolon, percent, underscore, tilde, comment starters and letters, in every position where the dialect embeds a name or value",
     "Tests quote a few fixed strings; injection and truncation depend on particular character combinations.",
     ["pysqlsync/model/id_types.py", "pysqlsync/model/data_types.py", "pysqlsync/dialect/postgresql/object_types.py", "pysqlsync/dialect/mysql/connection.py", "pysqlsync/formation/object_types.py"],
     [("quote, constant, escape_like", "pysqlsync/model/data_types.py"), ("identifier classes", "pysqlsync/model/id_types.py"), ("comment quoting", "pysqlsync/dialect/postgresql/object_types.py")],
     ["tokens a lexer of the target dialect reads from the statement"])

prop("P10", "Connection strings are parsed component by component and hide passwords",
     "A connection string composed of a dialect, optional percent-encoded user name and password, host, optional port, database name and SSL mode is parsed into exactly those components, and an unknown dialect or unknown SSL mode is rejected. "
     "The printable form of connection parameters never contains the password, and parsing that form again yields the same remaining components.",
     ["inputs"],
     "the product of component alphabets, including reserved and non-ASCII characters, absent and empty components, IPv4, IPv6 and named hosts, and every SSL mode",
     "Tests parse a handful of URLs without reserved characters.",
     ["pysqlsync/factory.py", "pysqlsync/connection.py"],
     [("get_parameters", "pysqlsync/factory.py"), ("ConnectionParameters, SSL modes", "pysqlsync/connection.py")],
     ["returned dialect and connection parameters", "string form of the parameters"])

prop("P11", "The SSL mode decides encryption, verification and fallback",
     "Connecting with mode disable never uses encryption; modes require, verify-ca and verify-full never make an attempt without encryption, whatever fails; prefer tries encryption first and falls back once, allow tries plain first and falls back once, and an error of the last attempt is reported. "
     "Certificates are verified exactly in modes verify-ca and verify-full, host names exactly in verify-full, and obsolete protocol versions are not negotiated.",
     ["fault_sequences", "configurations"],
     "every SSL mode times every sequence of outcomes (accepted, refused, handshake failure, authentication failure) of successive connection attempts, times every dialect that supports SSL modes",
     "Connection tests need servers and are skipped; fallback sequences need particular failures.",
     ["pysqlsync/connection.py", "pysqlsync/dialect/postgresql/connection.py", "pysqlsync/dialect/mysql/connection.py"],
     [("create_context", "pysqlsync/connection.py"), ("open", "pysqlsync/dialect/postgresql/connection.py, pysqlsync/dialect/mysql/connection.py")],
     ["arguments of each connection attempt made through the driver"])

prop("P12", "Tab-separated exchange is lossless",
     "Writing records of any supported field types to the tab-separated format and reading them back, synchronously or asynchronously and however the input is chunked into reads, yields the same records with the same values, including NULL, empty strings and text with tabs, line breaks and backslashes. "
     "Selecting or reordering columns by name on reading yields exactly the values of those columns.",
     ["inputs"],
     "all small tables over the product of field types and value alphabets, all subsets and orders of columns, all chunkings of the input for asynchronous reading",
     "A single example file with three rows is round-tripped.",
     ["pysqlsync/data/exchange.py", "pysqlsync/model/properties.py"],
     [("TextWriter, TextReader, AsyncTextReader", "pysqlsync/data/exchange.py"), ("field type to format mapping", "pysqlsync/model/properties.py")],
     ["records read back"])

prop("P13", "Query results are converted exactly or rejected",
     "A result set is converted into the requested shape (scalar, tuple or data class) with every row and value preserved, in order, with columns matched to fields by position for tuples and by name for data classes, where a field without a column takes the default the class declares. "
     "A result set whose columns do not fit the requested shape is rejected with an error and never silently truncated, padded or permuted.",
     ["inputs"],
     "all result sets up to a bounded number of rows and columns over a small value alphabet including NULL, times all requested shapes up to the same width, through every dialect's driver row type",
     "Unwrapping is exercised with a few matching shapes; mismatches and the dialect-specific row types are only reached with live servers.",
     ["pysqlsync/resultset.py", "pysqlsync/base.py", "pysqlsync/dialect/postgresql/connection.py", "pysqlsync/dialect/mysql/connection.py", "pysqlsync/dialect/mssql/connection.py", "pysqlsync/dialect/oracle/connection.py"],
     [("resultset_unwrap_*", "pysqlsync/resultset.py"), ("query_one, query_all", "pysqlsync/base.py")],
     ["value returned by a query"])

prop("P14", "Class definitions map to columns and constraints with their declared meaning",
     "For every field type expressible from the supported scalar, optional, annotated, enumeration, composite, list, set, reference and union types, and in every dialect and mode, the column exists with a type that can hold every value of the field, is nullable exactly when the field is optional, and carries the declared default. "
     "Exactly the declared primary key, unique, identity, reference, value-range and enumeration constraints exist, lists of entities become separate link tables, and a mode a dialect cannot represent is refused with an error.",
     ["inputs", "configurations"],
     "all field types of a type grammar up to a bounded nesting, times field role (plain, key, unique, identity, default), times dialect, times enumeration, struct and array mode",
     "Tests check the text of a few dozen fields, mostly in one mode each; the product of type, role, dialect and mode is not enumerated.",
     ["pysqlsync/formation/py_to_sql.py", "pysqlsync/formation/inspection.py", "pysqlsync/model/properties.py", "pysqlsync/model/key_types.py", "pysqlsync/model/data_types.py"],
     [("member_to_sql_data_type, member_to_column, constraints", "pysqlsync/formation/py_to_sql.py"), ("field properties", "pysqlsync/model/properties.py"), ("mode checks", "pysqlsync/dialect/*/generator.py")],
     ["columns and constraints of the database after creation"])

prop("P15", "Database failures surface, and synchronisation can be retried from any point",
     "If the database fails at any statement or query of any operation, the operation raises an error that names the failing SQL and has the database's error as its cause; no failure is swallowed and no later statement is sent. "
     "If a synchronisation is interrupted after any number of its statements have taken effect, discovering and synchronising again either completes and reaches the desired schema without losing retained data, or raises an error; it never reports success with a different schema. Creating or dropping objects that has failed and is tried again over the same connection, or creating them in place of a synchronisation that has failed, likewise does what it should or raises an error.",
     ["fault_sequences", "crash_points"],
     "every driver call of every bounded history as the point of failure, with rollback of the whole script or with a prefix of its statements kept, followed by every choice of retry, times dialect",
     "No stable test injects a failure; databases without transactional data definition stop half-way at arbitrary statements.",
     ["pysqlsync/base.py", "pysqlsync/dialect/oracle/connection.py", "pysqlsync/dialect/postgresql/connection.py", "pysqlsync/dialect/mysql/connection.py", "pysqlsync/dialect/mssql/connection.py"],
     [("execute, execute_all, query_all error wrapping", "pysqlsync/base.py"), ("synchronize", "pysqlsync/base.py")],
     ["exception raised to the caller", "statements received by the driver", "structure of the database after the retry"])

prop("P16", "Discovery reads back exactly the schema in the database",
     "The schema description obtained from a database equals what is stored in it: every table of the requested namespace, every column in order with type, length or precision, nullability, default, identity and comment, primary keys, unique and foreign-key constraints with their columns in order, enumeration values in order and composite types. "
     "Nothing outside the requested namespace is included, and existence checks for tables and columns agree with the database.",
     ["inputs", "configurations"],
     "every database of a bounded universe of schemas (types, lengths, multi-column constraints, similar names, several namespaces with overlapping prefixes), times dialect",
     "All discovery tests need live servers and are skipped in the stable suite.",
     ["pysqlsync/formation/discovery.py", "pysqlsync/formation/data_types.py", "pysqlsync/formation/constraints.py", "pysqlsync/dialect/postgresql/discovery.py", "pysqlsync/dialect/mysql/discovery.py", "pysqlsync/dialect/mssql/discovery.py", "pysqlsync/dialect/oracle/discovery.py"],
     [("catalog queries", "pysqlsync/dialect/*/discovery.py"), ("type reconstruction", "pysqlsync/formation/data_types.py"), ("constraint grouping", "pysqlsync/formation/constraints.py")],
     ["schema description after discovery"])

prop("P17", "Synchronisation leaves other namespaces alone",
     "Synchronising or dropping the objects of some namespaces never creates, alters or drops an object of any other namespace in the same database, nor any row in it, however similar the namespace and table names are. "
     "Objects with the same name in two namespaces are kept apart in discovery, synchronisation and data operations.",
     ["histories", "configurations"],
     "all assignments of two or three namespaces with names chosen to collide under prefixing and pattern matching, all sequences of create, synchronise, insert and drop on one while the others are watched, times dialect",
     "Stable tests use one namespace at a time and no database.",
     ["pysqlsync/base.py", "pysqlsync/formation/discovery.py", "pysqlsync/dialect/mysql/connection.py", "pysqlsync/dialect/oracle/connection.py", "pysqlsync/dialect/mssql/connection.py", "pysqlsync/model/id_types.py"],
     [("namespace mapping and prefixing", "pysqlsync/model/id_types.py, pysqlsync/formation/py_to_sql.py"), ("drop_schema, get_namespace", "pysqlsync/dialect/*/connection.py, pysqlsync/formation/discovery.py")],
     ["objects and rows of the other namespaces"])

prop("P18", "Merging schema descriptions loses nothing and rejects contradictions",
     "Merging schema descriptions in any order and grouping yields the union of their namespaces and objects; an object described identically on both sides appears once, and an object described differently makes the merge fail. "
     "Merging never changes the description merged from, and later changes to one description do not show through in the other.",
     ["histories"],
     "all sequences of merges of up to three descriptions drawn from a universe with overlapping, equal and conflicting objects, with every order compared",
     "One test merges a single pair; order, grouping, conflicts and aliasing are not explored.",
     ["pysqlsync/formation/object_types.py", "pysqlsync/formation/object_dict.py"],
     [("Catalog.merge, Namespace.merge", "pysqlsync/formation/object_types.py"), ("ObjectDict", "pysqlsync/formation/object_dict.py")],
     ["merged description", "error raised"])

prop("P19", "Classes generated from a schema describe the same schema",
     "Python classes generated from the description of tables whose columns have types that fields of classes lead to define, when converted back, the same tables, columns, types, nullability, default values, primary keys, identity, unique constraints and references; the source code written for those classes, or for any others, is valid Python that defines equivalent classes. "
     "Columns whose names are not valid Python identifiers stay distinct.",
     ["inputs"],
     "all schema descriptions of a bounded universe of column types, roles, references and names, round-tripped through class generation and through source code",
     "Tests convert a few fixed tables one way and compare source text.",
     ["pysqlsync/formation/sql_to_py.py", "pysqlsync/python_types.py", "pysqlsync/formation/inspection.py"],
     [("SqlConverter", "pysqlsync/formation/sql_to_py.py"), ("code generation", "pysqlsync/python_types.py")],
     ["schema description converted back from the generated classes"])

prop("P20", "Field values are stored in the representation of their column",
     "For every supported field type and every value of it, including missing values, the value passed to the database driver for an object or row is one the column's type can store in that dialect, and it identifies the original value uniquely: distinct values stay distinct and missing values are NULL. "
     "Objects and rows holding equal values are stored equally. An integer, text or enumeration value that its column cannot hold is refused, never stored altered.",
     ["inputs", "configurations"],
     "all supported field types (plain, optional, annotated, key) times a value alphabet per type, times object and row operations, times dialect and mode",
     "Conversion of values is exercised for a few types by skipped integration tests.",
     ["pysqlsync/base.py", "pysqlsync/dialect/mysql/generator.py", "pysqlsync/dialect/mssql/generator.py", "pysqlsync/dialect/oracle/generator.py"],
     [("get_field_extractor, get_value_transformer", "pysqlsync/base.py, pysqlsync/dialect/*/generator.py")],
     ["parameter values received by the database driver"])

prop("P21", "Blocking driver calls return their own results without blocking the event loop",
     "Under any interleaving of concurrent operations on databases with blocking drivers, each awaiting caller receives exactly the result or the exception of its own call, every call is executed exactly once, and other tasks keep running while a call blocks. "
     "Consecutive calls of one operation never overlap or change order.",
     ["schedules"],
     "all interleavings of start and completion of up to three concurrent blocking calls, with results and exceptions, and of batch execution, under a controlled executor",
     "One test dispatches calls one after the other; completion orders are not controlled.",
     ["pysqlsync/util/dispatch.py", "pysqlsync/dialect/mssql/connection.py", "pysqlsync/dialect/oracle/connection.py"],
     [("thread_dispatch", "pysqlsync/util/dispatch.py")],
     ["result or exception of each awaited call", "order of driver calls"])

prop("P22", "Sample data fits the class it is generated for",
     "Whatever the random choices, the generator of sample data yields exactly the requested number of records of a class with distinct primary keys, each of whose fields has a value of the declared type within its declared range, length, precision and set of values. "
     "None occurs in optional fields only, references have values of the type of the key they refer to, and composite and list values are in JSON form with members that obey the same rules. A type that has no generator is refused with an error.",
     ["inputs"],
     "every sequence of random choices up to a bound on deviations from extreme outcomes, for every kind of field",
     "Tests only use the generator to make rows for servers that are not available, with whatever choices the random generator takes.",
     ["pysqlsync/data/generator.py"],
     [("random_objects", "pysqlsync/data/generator.py"), ("RandomGenerator", "pysqlsync/data/generator.py")],
     ["records returned by random_objects"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
