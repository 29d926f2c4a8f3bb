"""
P11: the SSL mode decides encryption, verification and fallback.

A. The real connection classes run against scripted drivers: every mode x every sequence of answers of the server.
B. Every context made for a mode performs a real TLS handshake (in memory) with servers that present various
   certificates and protocol versions.
C. The real drivers connect to loopback servers, which validates what (A) assumes of the drivers.
"""

import asyncio
import itertools
import os
import socket
import ssl
import struct
import threading
from typing import Any, Optional

import asyncpg
import aiomysql
import pymysql
import pyodbc

from pysqlsync.base import GeneratorOptions
from pysqlsync.connection import ConnectionParameters, ConnectionSSLMode, create_context
from pysqlsync.factory import get_dialect

from ..core import Run

LEVEL = "model_checking"
RULE = (
    "A: dialect x SSL mode x every sequence of server answers until the operation ends; B: mode x certificate x "
    "protocol range, real handshakes; C: mode x server behaviour over loopback with the real drivers; non-trivial = "
    "the mode is set or the server refuses"
)
ASSUMPTIONS = [
    "scripted drivers treat their `ssl` argument as the real ones do (validated over loopback): an asyncpg `ssl=None` "
    "is opportunistic encryption, `ssl=False` is plain; an aiomysql `ssl=None` is plain",
]
TLS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tls")
M = ConnectionSSLMode
PLAIN, SSL, ANY = "plain", "ssl", "opportunistic"


def attempt_kind(dialect: str, value: Any) -> str:
    if isinstance(value, (str, bool)) or value is None:
        if dialect == "postgresql":
            if value is None:
                return ANY
            if value is False or value == "disable":
                return PLAIN
            return SSL if value is True or value in ("require", "verify-ca", "verify-full") else ANY
        return PLAIN if not value else SSL
    return SSL


def describe(ctx: Any) -> Optional[tuple]:
    if ctx is None or isinstance(ctx, (str, bool)):
        return None
    return (int(ctx.verify_mode), bool(ctx.check_hostname))


class Native:
    "An open connection."

    def __init__(self) -> None:
        self.closed = 0

    def get_server_version(self):
        return type("V", (), {"major": 16, "minor": 0, "micro": 0, "releaselevel": "final"})()


class AsyncNative(Native):
    async def close(self):
        self.closed += 1


class SyncNative(Native):
    def close(self):
        self.closed += 1


class PGRefused(ConnectionError):
    pass


ANSWERS: dict[str, dict[str, Any]] = {
    "postgresql": {
        "ok": None,
        "refused-transport": lambda: PGRefused("rejected SSL upgrade"),
        "tls-failure": lambda: ssl.SSLError("handshake failure"),
        "no-pg-hba-entry": lambda: asyncpg.InvalidAuthorizationSpecificationError("no pg_hba.conf entry"),
        "reset": lambda: ConnectionResetError("reset"),
        "no-database": lambda: asyncpg.InvalidCatalogNameError("no such database"),
        "bug": lambda: ValueError("bad value"),
        "cancelled": lambda: asyncio.CancelledError(),
    },
    "mysql": {
        "ok": None,
        "refused-transport": lambda: pymysql.err.OperationalError(3159, "insecure transport"),
        "tls-failure": lambda: pymysql.err.OperationalError(2003, "Can't connect"),
        "no-database": lambda: pymysql.err.OperationalError(1049, "Unknown database"),
        "internal": lambda: pymysql.err.InternalError(1, "x"),
        "bug": lambda: ValueError("bad value"),
        "cancelled": lambda: asyncio.CancelledError(),
    },
}
# answers by which a server (or its TLS stack) declines the kind of transport attempted
DECLINES = {"refused-transport", "tls-failure", "no-pg-hba-entry"}
FATAL = {"cancelled"}


def part_a(run: Run) -> None:
    params_menu = [
        ConnectionParameters("db.example.com", 1234, "u", "p", "d", None),
        ConnectionParameters(None, None, None, None, None, None),
    ]
    for dialect, answers in ANSWERS.items():
        engine = get_dialect(dialect)
        for mode, base in itertools.product([None, *M], params_menu):
            params = ConnectionParameters(base.host, base.port, base.username, base.password, base.database, mode)
            # depth-first over the answers of the server; a script is extended only while the code keeps asking
            stack: list[tuple[str, ...]] = [()]
            while stack:
                script = stack.pop()
                asked = run_script(run, dialect, engine, params, mode, script)
                if asked > len(script):
                    if len(script) >= 4:
                        run.violation(f"{dialect}/{mode}/attempts", f"more than {len(script)} attempts", script)
                        continue
                    stack.extend(script + (a,) for a in answers)


class OutOfScript(BaseException):
    pass


def run_script(run: Run, dialect, engine, params, mode, script) -> int:
    attempts: list[tuple[str, Optional[tuple], tuple]] = []
    natives: list[Any] = []
    errors: list[BaseException] = []

    async def connect(*args, **kwargs):
        value = kwargs.pop("ssl", None)
        run.transition()
        index = len(attempts)
        attempts.append((attempt_kind(dialect, value), describe(value), (args, tuple(sorted(kwargs.items())))))
        if index >= len(script):
            raise OutOfScript()
        make = ANSWERS[dialect][script[index]]
        if make is None:
            native = AsyncNative() if dialect == "postgresql" else SyncNative()
            natives.append(native)
            return native
        errors.append(make())
        raise errors[-1]

    conn = engine.create_connection(params, GeneratorOptions())

    async def main():
        async with conn as ctx:
            return ctx

    module = asyncpg if dialect == "postgresql" else aiomysql
    original = module.connect
    module.connect = connect  # type: ignore
    raised: Optional[BaseException] = None
    result = None
    try:
        result = asyncio.run(main())
    except OutOfScript:
        return len(attempts)
    except BaseException as e:
        raised = e
    finally:
        module.connect = original

    name = mode.value if mode else "unset"
    sig = f"{dialect}/{name}"
    replay = {"dialect": dialect, "mode": name, "answers": script, "attempts": [(a[0], a[1]) for a in attempts]}
    kinds = tuple(a[0] for a in attempts)
    run.state((dialect, name, script, kinds))
    run.case((dialect, name, script) if mode or script != ("ok",) else None, (name, kinds, type(raised).__name__))
    run.trace()
    run.sample(replay)

    def bad(what: str, text: str) -> None:
        run.violation(f"{sig}/{what}", f"{text}: {replay}; raised {raised!r}", replay)

    # which attempts
    verify = {M.verify_ca, M.verify_full}
    if mode is M.disable and set(kinds) - {PLAIN}:
        bad("encryption", "an attempt may use encryption")
    if mode in (M.require, M.verify_ca, M.verify_full) and (set(kinds) - {SSL} or len(kinds) != 1):
        bad("encryption", "an attempt may lack encryption, or is repeated")
    if mode is M.prefer and kinds not in [(SSL,), (SSL, PLAIN)]:
        bad("order", "prefer is encrypted first, then plain once")
    if mode is M.allow and kinds not in [(PLAIN,), (PLAIN, SSL)]:
        bad("order", "allow is plain first, then encrypted once")
    if mode in (M.prefer, M.allow) and script[0] in DECLINES and len(kinds) < 2:
        bad(f"no-fallback-{script[0]}", "the second kind of transport was not tried")
    if mode in (M.prefer, M.allow) and script[0] in FATAL and len(kinds) > 1:
        bad("fallback-after-cancellation", "cancelled operation went on")
    if len(script) > len(attempts):
        bad("attempts", "an answer was not used")

    # verification
    for kind, ctx, _ in attempts:
        if ctx is not None:
            expect = (int(ssl.CERT_REQUIRED) if mode in verify else int(ssl.CERT_NONE), mode is M.verify_full)
            if ctx != expect:
                bad("verification", f"context has (verify_mode, check_hostname) {ctx}, expected {expect}")
        elif kind == SSL and mode in verify:
            bad("verification", "no context")

    # every attempt has the same connection parameters
    if len({repr(a[2]) for a in attempts}) != 1:
        bad("parameters", f"attempts differ: {[a[2] for a in attempts]}")
    if params.host:
        args = dict(attempts[0][2][1])
        got = (args.get("host"), args.get("port"), args.get("user"), args.get("password"), args.get("database", args.get("db")))
        if got != (params.host, params.port, params.username, params.password, params.database):
            bad("parameters", f"driver was given {got}")

    # result
    if script[-1] == "ok":
        if raised is not None or result is None:
            bad("result", "operation failed although the server accepted")
        elif natives[-1].closed != 1 or len(natives) != 1:
            bad("close", "connection was not closed exactly once")
    elif raised is None:
        bad("result", "operation succeeded although the server did not accept")
    elif raised is not errors[-1] and raised.__cause__ is not errors[-1]:
        bad("result", f"error of the last attempt {errors[-1]!r} is not reported")
    return len(attempts)


# B: handshakes in memory -----------------------------------------------------------


def handshake(client_ctx, cert: str, minimum, maximum, host: str) -> str:
    server = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    server.load_cert_chain(os.path.join(TLS, cert + ".pem"), os.path.join(TLS, "server.key"))
    server.set_ciphers("ALL:@SECLEVEL=0")
    server.minimum_version = minimum
    server.maximum_version = maximum
    c_in, c_out, s_in, s_out = ssl.MemoryBIO(), ssl.MemoryBIO(), ssl.MemoryBIO(), ssl.MemoryBIO()
    s = server.wrap_bio(s_in, s_out, server_side=True)
    c = client_ctx.wrap_bio(c_in, c_out, server_hostname=host)
    done = {"c": False, "s": False}
    for _ in range(12):
        for who, obj in (("c", c), ("s", s)):
            if not done[who]:
                try:
                    obj.do_handshake()
                    done[who] = True
                except ssl.SSLWantReadError:
                    pass
                except ssl.SSLCertVerificationError as e:
                    return "certificate" if who == "c" else f"server: {e}"
                except ssl.SSLError as e:
                    return "protocol"
        if done["c"] and done["s"]:
            return "ok " + str(c.version())
        s_in.write(c_out.read())
        c_in.write(s_out.read())
    return "stuck"


def part_b(run: Run) -> None:
    V = ssl.TLSVersion
    for mode in [None, *M]:
        run.transition()
        ctx = create_context(mode)  # type: ignore
        if mode in (None, M.disable):
            run.case(("context", mode))
            if ctx is not None:
                run.violation(f"context/{mode}", "a context although encryption is disabled")
            continue
        assert mode is not None
        for cert, host, version in itertools.product(
            ["good", "wronghost", "selfsigned", "expired"], ["localhost", "127.0.0.1"],
            [V.TLSv1, V.TLSv1_1, V.TLSv1_2, V.TLSv1_3],
        ):
            ctx = create_context(mode)
            outcome = handshake(ctx, cert, version, version, host)
            run.transition()
            run.state((mode.value, cert, host, version.name, outcome))
            run.case((mode.value, cert, host, version.name), ("handshake", outcome))
            run.trace()
            replay = {"mode": mode.value, "certificate": cert, "host": host, "version": version.name, "outcome": outcome}
            if version in (V.TLSv1, V.TLSv1_1):
                if outcome.startswith("ok"):
                    run.violation(f"context/{mode.value}/obsolete-{version.name}", f"{replay}", replay)
                continue
            if mode is M.verify_full:
                accept = cert == "good"
            elif mode is M.verify_ca:
                accept = cert in ("good", "wronghost")
            else:
                accept = True
            if outcome.startswith("ok") != accept:
                run.violation(f"context/{mode.value}/{cert}", f"{replay}", replay)
        # contexts are independent of each other
        a, b = create_context(mode), create_context(mode)
        run.case(("independent", mode.value))
        if a is b:
            run.violation(f"context/{mode.value}/shared", "contexts are shared between connections")


# C: real drivers over loopback ---------------------------------------------------------


def server_context(cert: str) -> ssl.SSLContext:
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    ctx.load_cert_chain(os.path.join(TLS, cert + ".pem"), os.path.join(TLS, "server.key"))
    return ctx


class PGServer:
    "Answers just enough of the PostgreSQL protocol to establish a connection."

    def __init__(self, behaviour: str) -> None:
        self.behaviour = behaviour
        self.log: list[str] = []

    async def __call__(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
        try:
            await self.serve(reader, writer)
        except (ConnectionError, asyncio.IncompleteReadError, ssl.SSLError, OSError):
            pass
        finally:
            try:
                writer.close()
            except Exception:
                pass

    async def serve(self, reader, writer) -> None:
        size, code = struct.unpack("!II", await reader.readexactly(8))
        kind = PLAIN
        if code == 80877103:
            if self.behaviour in ("plain-only",):
                self.log.append("ssl-request-refused")
                writer.write(b"N")
                await writer.drain()
            else:
                writer.write(b"S")
                await writer.drain()
                self.log.append("ssl-request")
                await writer.start_tls(server_context(self.behaviour.removeprefix("ssl-only-")))
                kind = SSL
            size, code = struct.unpack("!II", await reader.readexactly(8))
        await reader.readexactly(size - 8)
        self.log.append("startup-" + kind)

        def msg(t: bytes, body: bytes) -> bytes:
            return t + struct.pack("!I", len(body) + 4) + body

        if kind == PLAIN and self.behaviour.startswith("ssl-only"):
            writer.write(msg(b"E", b"SFATAL\0C28000\0Mno pg_hba.conf entry\0\0"))
            await writer.drain()
            return
        out = msg(b"R", struct.pack("!I", 0))
        for k, v in [(b"server_version", b"16.0"), (b"client_encoding", b"UTF8"), (b"server_encoding", b"UTF8"),
                     (b"standard_conforming_strings", b"on"), (b"TimeZone", b"UTC")]:
            out += msg(b"S", k + b"\0" + v + b"\0")
        out += msg(b"K", struct.pack("!II", 1, 2)) + msg(b"Z", b"I")
        writer.write(out)
        await writer.drain()
        await reader.read(100)


class MySQLServer:
    """
    Answers just enough of the MySQL protocol. Blocking, because the client sends its TLS hello right behind the request
    for encryption, which must not be read ahead.
    """

    def __init__(self, behaviour: str) -> None:
        self.behaviour = behaviour
        self.log: list[str] = []

    def run(self, listener: socket.socket) -> None:
        while True:
            try:
                sock, _ = listener.accept()
            except OSError:
                return
            try:
                sock.settimeout(10)
                self.serve(sock)
            except OSError:
                pass
            finally:
                sock.close()

    def serve(self, sock: socket.socket) -> None:
        def packet(seq: int, body: bytes) -> bytes:
            return struct.pack("<I", len(body))[:3] + bytes([seq]) + body

        def exactly(n: int) -> bytes:
            data = b""
            while len(data) < n:
                part = sock.recv(n - len(data))
                if not part:
                    raise ConnectionError()
                data += part
            return data

        def receive() -> tuple[int, bytes]:
            head = exactly(4)
            return head[3], exactly(int.from_bytes(head[:3], "little"))

        caps = 0x1 | 0x2 | 0x4 | 0x8 | 0x200 | 0x2000 | 0x8000 | 0x10000 | 0x20000 | 0x80000
        if self.behaviour != "plain-only":
            caps |= 0x800
        greeting = b"\x0a8.0.30\0" + struct.pack("<I", 7) + b"abcdefgh\0" + struct.pack("<H", caps & 0xFFFF)
        greeting += b"\x21" + struct.pack("<H", 2) + struct.pack("<H", caps >> 16) + bytes([21]) + b"\0" * 10
        greeting += b"ijklmnopqrst\0" + b"mysql_native_password\0"
        sock.sendall(packet(0, greeting))
        seq, body = receive()
        kind = PLAIN
        if len(body) == 32:
            self.log.append("ssl-request")
            sock = server_context(self.behaviour.removeprefix("ssl-only-")).wrap_socket(sock, server_side=True)
            kind = SSL
            seq, body = receive()
        self.log.append("startup-" + kind)
        ok = b"\0\0\0" + struct.pack("<HH", 2, 0)
        if kind == PLAIN and self.behaviour.startswith("ssl-only"):
            sock.sendall(packet(seq + 1, b"\xff" + struct.pack("<H", 3159) + b"#HY000insecure transport prohibited"))
            sock.close()
            return
        sock.sendall(packet(seq + 1, ok))
        while True:
            seq, body = receive()
            if body[:1] == b"\x01":
                sock.close()
                return
            sock.sendall(packet(seq + 1, ok))


def part_c(run: Run) -> None:
    os.environ["SSL_CERT_FILE"] = os.path.join(TLS, "ca.pem")
    certs = ["good", "wronghost", "selfsigned"] if run.thorough else ["good", "wronghost", "selfsigned"]
    behaviours = ["plain-only"] + certs + ["ssl-only-" + c for c in certs]
    for dialect, server_type in (("postgresql", PGServer), ("mysql", MySQLServer)):
        engine = get_dialect(dialect)
        for mode, behaviour in itertools.product(list(M), behaviours):
            server = server_type(behaviour)
            outcome: list[Any] = []

            async def main():
                listener: Any
                if isinstance(server, MySQLServer):
                    listener = socket.create_server(("127.0.0.1", 0))
                    port = listener.getsockname()[1]
                    threading.Thread(target=server.run, args=(listener,), daemon=True).start()
                else:
                    listener = await asyncio.start_server(server, "127.0.0.1", 0)
                    port = listener.sockets[0].getsockname()[1]
                params = ConnectionParameters("127.0.0.1", port, "u", "p", "d", mode)
                conn = engine.create_connection(params, GeneratorOptions())
                try:
                    async with asyncio.timeout(20):
                        async with conn:
                            outcome.append("ok")
                except Exception as e:
                    outcome.append(e)
                if isinstance(listener, socket.socket):
                    listener.shutdown(socket.SHUT_RDWR)
                listener.close()

            asyncio.run(main())
            run.transition(len(server.log) + 1)
            run.state((dialect, mode.value, behaviour, tuple(server.log)))
            run.case((dialect, mode.value, behaviour), ("loopback", tuple(server.log), type(outcome[0]).__name__))
            replay = {"dialect": dialect, "mode": mode.value, "server": behaviour, "log": server.log, "outcome": repr(outcome[0])}
            run.sample(replay, limit=12)
            check_loopback(run, dialect, mode, behaviour, server.log, outcome[0] == "ok", replay)
            run.trace()


def check_loopback(run: Run, dialect, mode, behaviour, log, ok, replay) -> None:
    def bad(what: str) -> None:
        run.violation(f"loopback/{dialect}/{mode.value}/{behaviour}/{what}", f"{replay}", replay)

    requested = any(e.startswith("ssl-request") for e in log)
    plain = "startup-plain" in log
    cert = behaviour.removeprefix("ssl-only-")
    if mode is M.disable:
        if requested:
            bad("encryption-requested")
        if ok == behaviour.startswith("ssl-only"):
            bad("result")
    elif mode is M.prefer:
        if not (ok and (log[-1] == "startup-plain") == (behaviour == "plain-only")):
            bad("result")
    elif mode is M.allow:
        if not ok or (log[-1] == "startup-ssl") != behaviour.startswith("ssl-only"):
            bad("result")
        if behaviour == "plain-only" and requested:
            bad("encryption-first")
    else:
        if plain:
            bad("plain")
        accept = behaviour != "plain-only"
        if mode is M.verify_ca:
            accept = accept and cert in ("good", "wronghost")
        elif mode is M.verify_full:
            accept = accept and cert == "good"
        if ok != accept and not plain:
            bad("result")


def part_d(run: Run) -> None:
    "Microsoft SQL Server: the connection string handed to the driver."

    engine = get_dialect("mssql")
    for mode in M:
        given: list[str] = []

        def connect(text, *args, **kwargs):
            given.append(text)
            raise pyodbc.Error("stop here")

        original = pyodbc.connect
        pyodbc.connect = connect  # type: ignore

        async def main():
            async with engine.create_connection(ConnectionParameters("h", 1, "u", "p", "d", mode), GeneratorOptions()):
                pass

        try:
            asyncio.run(main())
        except Exception:
            pass
        finally:
            pyodbc.connect = original
        run.transition()
        run.case(("mssql", mode.value), "mssql")
        run.state(("mssql", mode.value))
        run.trace()
        if not given:
            continue
        options = dict(item.split("=", 1) for item in given[-1].lower().split(";"))
        trust = options.get("trustservercertificate") in ("yes", "true", "1")
        if mode in (M.verify_ca, M.verify_full) and trust:
            run.violation(f"mssql/{mode.value}/trusts-any-certificate", given[-1], given[-1])
        if mode is M.disable and options.get("encrypt", "mandatory") not in ("no", "optional", "false"):
            run.violation("mssql/disable/encrypts-by-default", given[-1], given[-1])
        if mode in (M.require, M.verify_ca, M.verify_full) and options.get("encrypt", "mandatory") in ("no", "optional", "false"):
            run.violation(f"mssql/{mode.value}/does-not-encrypt", given[-1], given[-1])


def explore(run: Run) -> None:
    old = os.environ.get("SSL_CERT_FILE")
    os.environ["SSL_CERT_FILE"] = os.path.join(TLS, "ca.pem")
    for name in [n for n in os.environ if n.startswith("PG")]:
        del os.environ[name]
    try:
        part_a(run)
        part_b(run)
        part_c(run)
        part_d(run)
    finally:
        if old is None:
            del os.environ["SSL_CERT_FILE"]
        else:
            os.environ["SSL_CERT_FILE"] = old
    run.bounds = {"attempts": 4, "loopback_servers": 7, "handshakes": 5 * 4 * 2 * 4}
