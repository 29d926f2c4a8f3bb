ID = "p22-enum-set-repeats"
PROPERTY = "P22"
NEEDS = "a set of enumeration values, and random choices that take the same value twice"
BREAKS = "A set in a sample record has the same enumeration value twice."
EDITS = [("pysqlsync/data/generator.py", """        return lambda: shuffled(values)[
            : min(min_c + random.randint(0, c), len(values))
        ]
""", """        return lambda: random.choices(
            values, k=min(min_c + random.randint(0, c), len(values))
        )
""")]
DEMO = '''
import enum, random
from dataclasses import dataclass
from pysqlsync.data.generator import random_objects
from pysqlsync.model.key_types import PrimaryKey
class Color(enum.Enum):
    RED = "red"
    GREEN = "green"
    BLUE = "blue"
@dataclass
class Item:
    id: PrimaryKey[int]
    colors: set[Color]
random.seed(0)
for item in random_objects(Item, 1000):
    assert len(set(item.colors)) == len(item.colors), item
'''
