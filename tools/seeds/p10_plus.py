ID = "p10-plus-decoded"
PROPERTY = "P10"
NEEDS = "a user name with a literal plus sign (or a percent-encoded space next to one)"
BREAKS = "A literal + in the user name is decoded as a space, as in HTML forms: the connection logs in as another user."
EDITS = [
    ("pysqlsync/factory.py", "username=unquote(parts.username) if parts.username else None", "username=unquote(parts.username.replace(\"+\", \" \")) if parts.username else None"),
]
DEMO = """
from pysqlsync.factory import get_parameters
_, p = get_parameters("postgresql://jo+hn:pw@example.com/db")
assert p.username == "jo+hn", p.username
"""
