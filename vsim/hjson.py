"""A JSON backend whose calls are fault points."""

import json

from . import zoo


def dumps(obj, **kw):
    zoo.fire("dumps", None)
    text = json.dumps(obj, **kw)
    zoo.fire("dumps2", None)
    return text


def loads(text, **kw):
    zoo.fire("loads", None)
    value = json.loads(text, **kw)
    zoo.fire("loads2", None)
    return value
