"""
P10: connection strings are parsed component by component and hide passwords.

Every connection string composed from the alphabets below is parsed by the real parser and compared with the components
it was composed of; the dialect registry is explored as a state machine against a plain dictionary.
"""

import itertools
from typing import Optional

from pysqlsync.connection import ConnectionParameters, ConnectionSSLMode
from pysqlsync.factory import (
    get_dialect,
    get_parameters,
    register_dialect,
    unregister_dialect,
)

from ..core import Run

LEVEL = "model_checking"
RULE = (
    "every connection string over: all characters U+0001..U+017F and selected wide characters alone and every "
    "string of <=2 (thorough: <=3) URL-significant characters, in user name, password and database name; x hosts x "
    "ports x SSL modes x 3 percent-encoders; non-trivial = a component needs percent-encoding or is optional and "
    "absent; registry histories up to depth 5 (thorough: 6) over 2 names"
)
ASSUMPTIONS = [
    "user name, password and database name of a connection string are percent-encoded per RFC 3986 (as documented)",
    "an absent host prints as localhost, the host every driver defaults to",
]

UNRESERVED = frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~")
SUB_DELIMS = frozenset("!$&'()*+,;=")  # may be left as is in any component (RFC 3986)
SPECIAL = "@:/?#[]%&=+ ;'\"\\!$aA0\u00e9\u4e2d"
MODES: list[Optional[str]] = [None, "disable", "prefer", "allow", "require", "verify-ca", "verify-full"]


def encode(s: str, every: bool, lower: bool) -> str:
    fmt = "%%%02x" if lower else "%%%02X"
    return "".join(
        c if (c in UNRESERVED or lower is None and c in SUB_DELIMS) and not every else "".join(fmt % b for b in c.encode("utf-8")) for c in s
    )


def compose(dialect, user, password, host, port, database, ssl, every=False, lower=False) -> str:
    url = dialect + "://"
    if user is not None:
        url += encode(user, every, lower)
        if password is not None:
            url += ":" + encode(password, every, lower)
        url += "@"
    if host is not None:
        url += f"[{host}]" if ":" in host else host
    if port is not None:
        url += f":{port}"
    if database is not None:
        url += "/" + encode(database, every, lower)
    if ssl is not None:
        url += "?ssl=" + ssl
    return url


def check(run: Run, kind: str, dialect, user, password, host, port, database, ssl, every=False, lower=False) -> None:
    url = compose(dialect, user, password, host, port, database, ssl, every, lower)
    run.transition()
    run.state(url)
    expect = (dialect, host, port, user, password, database, ssl)
    run.case(expect if any(e and not set(e) <= UNRESERVED for e in (user, password, database)) or None in expect else None)
    replay = {"url": url, "expected": expect}
    with run.guard(f"parse/{kind}", replay):
        name, p = get_parameters(url)
        got = (name, p.host, p.port, p.username, p.password, p.database, p.ssl.value if p.ssl else None)
        if got != expect:
            which = [n for n, g, e in zip(["dialect", "host", "port", "username", "password", "database", "ssl"], got, expect) if g != e]
            run.violation(f"parse/{kind}/{'+'.join(which)}", f"{url} parsed into {got}, expected {expect}", replay)
            return

        # the printable form hides the password and parses into the same remaining components
        text = str(p)
        other = str(ConnectionParameters(p.host, p.port, p.username, "another-secret", p.database, p.ssl))
        if text != other:
            run.violation(f"print/{kind}/password", f"printable form depends on password: {text!r}", replay)
        name2, q = get_parameters(f"{dialect}://{text}")
        got2 = (name2, q.host, q.port, q.username, q.password, q.database, q.ssl.value if q.ssl else None)
        expect2 = (dialect, host or "localhost", port, user, None, database, ssl)
        if got2 != expect2:
            run.violation(f"print/{kind}/reparse", f"{text} parsed into {got2}, expected {expect2}", replay)
        run.trace()
        run.sample({"url": url, "components": got, "printed": text})
    run.outcomes[kind] += 1


def check_rejected(run: Run, kind: str, url: str) -> None:
    run.case(url, "rejected " + kind)
    run.transition()
    try:
        result = get_parameters(url)
    except ValueError:
        run.trace()
        return
    run.violation(f"reject/{kind}", f"accepted: {url} as {result}", {"url": url})


def explore(run: Run) -> None:
    def strings():
        for code in itertools.chain(range(1, 0x180), (0x4E2D, 0x2F9F, 0xFF0F, 0x1F600, 0x2100)):
            yield chr(code)
        for n in (2, 3) if run.thorough else (2,):
            for t in itertools.product(SPECIAL, repeat=n):
                yield "".join(t)

    for s in strings():
        check(run, "user", "postgresql", s, None, "h", None, "db", None)
        check(run, "password", "mysql", "u", s, "h", 5432, "db", "require")
        check(run, "database", "mssql", "u", "p", "h", None, s, None)
        check(run, "all", "oracle", s, s, "h.example.com", 1, "x" + s, "verify-full")
        if SUB_DELIMS.intersection(s):
            check(run, "sub-delims", "redshift", s, s, "h", None, s, None, False, None)

    texts = [None, "u", "a@b:c/d", "%41", "p+w d", "\u00e9?ssl=disable"]
    for user, password, host, port, database, ssl, (every, lower) in itertools.product(
        texts,
        texts,
        ["localhost", "db.example.com.", "db-1.example.com", "127.0.0.1", "::1", "fe80::1", None],
        [None, 1, 5432, 65535],
        [None, "db", "x/y", "%41", "a?b", "a b", "\u00e9"],
        MODES,
        [(False, False), (True, True)],
    ):
        if user is None and password is not None:
            continue
        if host is None and (user is not None or port is not None):
            continue  # no such URL
        kind = "product" + ("-ipv6" if host and ":" in host else "")
        check(run, kind, "postgresql", user, password, host, port, database, ssl, every, lower)

    # direct construction: the password never shows through
    for user, database, host in itertools.product(texts, texts, ["h", None, "::1"]):
        for password in ["SECRET", "x@y", "a:b"]:
            run.transition()
            a = ConnectionParameters(host, None, user, password, database, None)
            b = ConnectionParameters(host, None, user, None, database, None)
            run.case((user, database, host, password), "print")
            if str(a) != str(b):
                run.violation("print/direct", f"{a} vs {b}", {"password": password})

    # characters of the database name that need no encoding as they have no meaning after the host
    for signs in itertools.chain("#:@;/[]", ("".join(t) for t in itertools.product("#:@;/", repeat=2))):
        for database, mode in itertools.product(("a" + signs + "b", "a" + signs), MODES):
            if database.endswith("/"):
                continue
            url = f"postgresql://u:p@h:1/{database}" + (f"?ssl={mode}" if mode else "")
            run.transition()
            run.state(url)
            run.case(url, "raw database")
            with run.guard("raw-database", url):
                p = get_parameters(url)[1]
                if (p.host, p.port, p.username, p.password, p.database, p.ssl.value if p.ssl else None) != ("h", 1, "u", "p", database, mode):
                    run.violation("parse/raw-database", f"{url} parsed into {p!r}", {"url": url})

    # rejected
    for mode in ["", "tls", "REQUIRE", "verify_ca", "verify_full", "Disable", "on", "1", "true", "require ", "requir", "require,disable"]:
        check_rejected(run, "mode", f"postgresql://h/db?ssl={mode.replace(' ', '%20')}")
        check_rejected(run, "mode", f"mysql://u:p@h:1/?ssl={mode.replace(' ', '%20')}")
    for a, b in itertools.product(MODES[1:], repeat=2):
        check_rejected(run, "two-modes", f"postgresql://h/db?ssl={a}&ssl={b}")
    for a in MODES[1:]:
        check_rejected(run, "two-modes", f"postgresql://h/db?ssl={a}&ssl=")
        check_rejected(run, "two-modes", f"postgresql://h/db?ssl=&ssl={a}")
    check_rejected(run, "mode", "postgresql://h/db?ssl")
    for port in ["x", "65536", "99999", "-1"]:
        check_rejected(run, "port", f"postgresql://h:{port}/db")
    for mode in MODES[1:]:
        assert mode is not None
        for url in [f"postgresql://h/db?x=1&ssl={mode}", f"postgresql://h/db?ssl={mode}&x=1"]:
            run.case(url, "extra parameter")
            with run.guard("extra-parameter", url):
                if get_parameters(url)[1].ssl is not ConnectionSSLMode(mode):
                    run.violation("extra-parameter", url, url)

    registry(run)
    run.bounds = {"string_length": 3 if run.thorough else 2, "registry_depth": 6 if run.thorough else 5}


def registry(run: Run) -> None:
    "Explores all histories of the dialect registry against a dictionary."

    names = ["verif_a", "verif_b"]
    engines = [object(), object()]
    actions = [(op, n, e) for op in ("register",) for n in names for e in (0, 1)]
    actions += [("unregister", n, None) for n in names] + [("get", n, None) for n in names]
    depth = 6 if run.thorough else 5

    def execute(history):
        model: dict[str, int] = {}
        try:
            for step, (op, name, e) in enumerate(history):
                run.transition()
                real: object
                try:
                    if op == "register":
                        register_dialect(name, engines[e])  # type: ignore
                        real = "ok"
                    elif op == "unregister":
                        unregister_dialect(name)
                        real = "ok"
                    else:
                        real = engines.index(get_dialect(name))
                except (ValueError, KeyError):
                    real = "error"
                expect: object
                if op == "register":
                    expect = "error" if name in model else "ok"
                    model.setdefault(name, e)
                elif op == "unregister":
                    expect = "ok" if model.pop(name, None) is not None else "error"
                else:
                    expect = model.get(name, "error")
                if real != expect:
                    run.violation(f"registry/{op}", f"{history[:step + 1]}: {real}, expected {expect}", history)
        finally:
            for name in names:
                try:
                    unregister_dialect(name)
                except KeyError:
                    pass
        return tuple(sorted(model.items()))

    # breadth-first over histories; histories that reach a known state are checked but not extended
    seen = {()}
    frontier: list[tuple] = [()]
    for _ in range(depth):
        following = []
        for history in frontier:
            for action in actions:
                h = history + (action,)
                s = execute(h)
                run.case(h, "registry")
                run.state(("registry", s))
                if s not in seen or len(h) <= 3:
                    seen.add(s)
                    following.append(h)
        frontier = following

    for name in ["", "postgres", "PostgreSQL", "sqlite", "postgresql ", "mysql\0", "test"]:
        run.transition()
        run.case(name, "unknown dialect")
        try:
            engine = get_dialect(name)
        except ValueError:
            continue
        if engine.name != name:
            run.violation("registry/unknown", f"dialect {name!r} accepted", name)
    for name in ["postgresql", "mysql", "mssql", "oracle", "snowflake", "delta", "redshift", "trino"]:
        with run.guard("registry/bundled", name):
            if get_dialect(name).name != name:
                run.violation("registry/bundled", f"dialect {name!r} resolves to {get_dialect(name).name}", name)
