ID = "p19-comment-split-at-hyphen"
PROPERTY = "P19"
NEEDS = "a class or member description longer than a line with a hyphenated word where the line ends"
BREAKS = "A blank is inserted within the hyphenated word when the source code is written and read back."
EDITS = [("pysqlsync/python_types.py", "        break_long_words=False,\n        break_on_hyphens=False,\n", "        break_long_words=False,\n")]
DEMO = '''
import inspect, sys, types
from dataclasses import dataclass
from pysqlsync.base import GeneratorOptions
from pysqlsync.python_types import dataclass_to_code

text = "It is " + "-".join(["part"] * 50)


@dataclass
class T:
    __doc__ = f"A class.\\n\\n:param id: {text}"
    id: int


code = dataclass_to_code(T)
name = {}
exec("import dataclasses\\nfrom dataclasses import dataclass\\n" + code, name)
doc = " ".join(inspect.cleandoc(name["T"].__doc__).split())
assert doc == f"A class. :param id: {text}", doc
'''
