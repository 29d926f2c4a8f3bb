ID = "p11-verify-full-any-host"
PROPERTY = "P11"
NEEDS = "mode verify-full and a server whose certificate is issued by a trusted authority for another host"
BREAKS = "Host name verification is left off in verify-full when connecting."
EDITS = [
    ("pysqlsync/connection.py", "        ctx.check_hostname = True\n", "        ctx.check_hostname = ssl_mode is not ConnectionSSLMode.verify_full\n"),
]
DEMO = """
from pysqlsync.connection import ConnectionSSLMode, create_context
assert create_context(ConnectionSSLMode.verify_full).check_hostname
"""
