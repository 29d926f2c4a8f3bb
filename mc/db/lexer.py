"""
Lexical rules of the SQL dialects, written from the databases' documentation (not from the code under test).
"""

from dataclasses import dataclass


class SqlError(Exception):
    "The database rejects a statement."


@dataclass(frozen=True)
class Tok:
    kind: str  # id (quoted), word (unquoted), str, num, op, ph, end
    value: object
    pos: int = 0

    def __repr__(self) -> str:
        return f"{self.kind}:{self.value!r}"


MAX_ID = {"postgresql": 63, "mysql": 64, "mssql": 128, "oracle": 128, "redshift": 127, "snowflake": 255, "delta": 255, "trino": 255}
BACKSLASH = ("mysql", "redshift", "snowflake", "delta")  # backslash is an escape character in string literals

_PG_ESC = {"b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}
_MY_ESC = {"0": "\0", "b": "\b", "n": "\n", "r": "\r", "t": "\t", "Z": "\x1a"}


def tokenize(sql: str, dialect: str, placeholders: bool = False) -> list[Tok]:
    """
    Splits a statement into tokens.

    :param placeholders: Whether parameter markers are recognised (the statement is prepared, or formatted by the driver).
    """

    toks: list[Tok] = []
    i, n = 0, len(sql)
    seq = 0
    while i < n:
        c = sql[i]
        if c == "\0":
            raise SqlError("NUL character in statement")
        if c.isspace():
            i += 1
            continue
        two = sql[i : i + 2]
        # comments
        if two == "--" and (dialect != "mysql" or i + 2 >= n or sql[i + 2].isspace()):
            j = sql.find("\n", i)
            i = n if j < 0 else j + 1
            continue
        if c == "#" and dialect == "mysql":
            j = sql.find("\n", i)
            i = n if j < 0 else j + 1
            continue
        if two == "/*":
            nested = dialect in ("postgresql", "mssql")
            depth, j = 1, i + 2
            while depth:
                if j >= n:
                    raise SqlError("unterminated comment")
                if sql[j : j + 2] == "*/":
                    depth -= 1
                    j += 2
                elif nested and sql[j : j + 2] == "/*":
                    depth += 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        # strings
        if c == "'" or (c in "eE" and sql[i + 1 : i + 2] == "'" and dialect == "postgresql") or (
            c in "nN" and sql[i + 1 : i + 2] == "'"
        ):
            start = i
            escapes = dialect in BACKSLASH
            table = _MY_ESC
            if c != "'":
                if c in "eE":
                    escapes, table = True, _PG_ESC
                i += 1
            i += 1
            buf = []
            while True:
                if i >= n:
                    raise SqlError("unterminated string literal")
                c = sql[i]
                if c == "'":
                    if sql[i + 1 : i + 2] == "'":
                        buf.append("'")
                        i += 2
                        continue
                    i += 1
                    break
                if c == "\\" and escapes:
                    if i + 1 >= n:
                        raise SqlError("unterminated string literal")
                    e = sql[i + 1]
                    if dialect == "mysql" and e in "%_":
                        buf.append("\\" + e)
                    elif dialect == "postgresql" and (e in "01234567xuU"):
                        raise SqlError("numeric escape not modelled")
                    else:
                        buf.append(table.get(e, e))
                    i += 2
                    continue
                if c == "%" and dialect == "mysql" and placeholders:
                    if sql[i + 1 : i + 2] == "%":
                        buf.append("%")
                        i += 2
                        continue
                    raise SqlError("driver: stray % in formatted statement")
                buf.append(c)
                i += 1
            toks.append(Tok("str", "".join(buf), start))
            continue
        # quoted identifiers
        if c == '"' or (c == "`" and dialect == "mysql") or (c == "[" and dialect == "mssql"):
            close = {'"': '"', "`": "`", "[": "]"}[c]
            start = i
            i += 1
            buf = []
            while True:
                if i >= n:
                    raise SqlError("unterminated identifier")
                ch = sql[i]
                if ch == close:
                    if sql[i + 1 : i + 2] == close and dialect != "oracle":
                        buf.append(close)
                        i += 2
                        continue
                    i += 1
                    break
                if ch == "%" and dialect == "mysql" and placeholders:
                    if sql[i + 1 : i + 2] == "%":
                        buf.append("%")
                        i += 2
                        continue
                    raise SqlError("driver: stray % in formatted statement")
                buf.append(ch)
                i += 1
            name = "".join(buf)
            if not name:
                raise SqlError("zero-length identifier")
            if dialect == "postgresql":
                raw = name.encode("utf-8")
                if len(raw) > 63:
                    name = raw[:63].decode("utf-8", "ignore")
            elif len(name) > MAX_ID[dialect]:
                raise SqlError(f"identifier too long: {name}")
            if dialect == "mysql" and name.endswith(" "):
                raise SqlError("incorrect identifier (trailing space)")
            toks.append(Tok("id", name, start))
            continue
        # parameter markers
        if placeholders:
            if dialect == "postgresql" and c == "$" and sql[i + 1 : i + 2].isdigit():
                j = i + 1
                while j < n and sql[j].isdigit():
                    j += 1
                toks.append(Tok("ph", int(sql[i + 1 : j]) - 1, i))
                i = j
                continue
            if dialect == "oracle" and c == ":" and sql[i + 1 : i + 2].isdigit():
                j = i + 1
                while j < n and sql[j].isdigit():
                    j += 1
                toks.append(Tok("ph", int(sql[i + 1 : j]) - 1, i))
                i = j
                continue
            if dialect == "mssql" and c == "?":
                toks.append(Tok("ph", seq, i))
                seq += 1
                i += 1
                continue
            if dialect == "mysql" and c == "%":
                if two == "%s":
                    toks.append(Tok("ph", seq, i))
                    seq += 1
                    i += 2
                    continue
                raise SqlError("driver: stray % in formatted statement")
        if c.isdigit() or (c == "." and sql[i + 1 : i + 2].isdigit()):
            j = i
            while j < n and (sql[j].isdigit() or sql[j] == "."):
                j += 1
            if j < n and sql[j] in "eE" and (sql[j + 1 : j + 2].isdigit() or sql[j + 1 : j + 2] in ("+", "-")):
                j += 2
                while j < n and sql[j].isdigit():
                    j += 1
            toks.append(Tok("num", sql[i:j], i))
            i = j
            continue
        if c.isalpha() or c == "_" or (c == "@" and dialect == "mssql"):
            j = i + 1
            while j < n and (sql[j].isalnum() or sql[j] in "_$@"):
                j += 1
            toks.append(Tok("word", sql[i:j], i))
            i = j
            continue
        for op in ("::", "<=", ">=", "<>", "!=", "||", "="):
            if sql.startswith(op, i):
                toks.append(Tok("op", op, i))
                i += len(op)
                break
        else:
            if c in "(),;.<>+-*/=%:":
                toks.append(Tok("op", c, i))
                i += 1
            else:
                raise SqlError(f"unexpected character {c!r}")
    return toks


def split_statements(sql: str, dialect: str) -> list[str]:
    "Splits a script at semicolons that are not inside a literal, identifier, comment or PL/SQL block."

    toks = tokenize(sql, dialect)
    out = []
    start = 0
    for t in toks:
        if t.kind == "op" and t.value == ";":
            part = sql[start : t.pos]
            if tokenize(part, dialect):
                out.append(part)
            start = t.pos + 1
    part = sql[start:]
    if tokenize(part, dialect):
        out.append(part)
    return out
