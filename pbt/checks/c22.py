"""C22: an edited model behaves like one built that way from the start"""
from pbt import edits as E
from pbt.harness import Part

PARTS = [
    Part('histories', E.histories(), E.decide, 'a history with an effective edit, after which most queries have values; distinct by sequence of operations', quick=500, thorough=9000),
    Part('short', E.histories(max_ops=2), E.decide, 'one or two edits', quick=200, thorough=3000),
]
