# -*- coding: utf-8 -*-
"""Walks and disturbs everything mutable reachable from a library object."""
import uuid

from . import fmt, libio


def values(o):
    """the property values of an object, as the API gives them"""
    if isinstance(o, dict):
        return [(k, o[k]) for k in list(o.keys())]
    if isinstance(o, list):
        return list(enumerate(o))
    cls = getattr(o, 'class_id', None)
    names = libio.schema(bytes(cls)) if cls else [p.name for p in o.propertydefs]
    return [(n, getattr(o, n)) for n in names if hasattr(o, n)]


def is_mob_id(v):
    return type(v).__name__ == 'MobID'


def mutable(v):
    return isinstance(v, (list, dict, bytearray)) or is_mob_id(v) or hasattr(v, 'propertydefs')


def reachable(o, limit=20000):
    """every mutable part reachable from o: {id: part}; keeps them alive"""
    out = {}
    todo = [o]
    while todo:
        x = todo.pop()
        if not mutable(x) or id(x) in out:
            continue
        out[id(x)] = x
        if len(out) > limit:
            break
        if isinstance(x, bytearray) or is_mob_id(x):
            continue
        for k, v in values(x):
            todo.append(v)
    return out


def twice(o):
    """a mutable part that o holds at two places, or None"""
    seen = set([id(o)])
    keep = []
    todo = [(k, v) for k, v in ([] if isinstance(o, bytearray) or is_mob_id(o) else values(o))]
    while todo:
        k, x = todo.pop()
        if not mutable(x):
            continue
        keep.append(x)
        if id(x) in seen:
            return k, x
        seen.add(id(x))
        if not isinstance(x, bytearray) and not is_mob_id(x):
            todo += values(x)
    return None


def objects(o):
    """only the objects that are stored on their own"""
    return [x for x in reachable(o).values() if getattr(x, 'class_id', None)]


def disturb(part, rng):
    """changes one mutable part in place; returns what was done or None"""
    if isinstance(part, bytearray):
        if rng.random() < 0.5 or not part:
            part.append(rng.getrandbits(8))
        else:
            part[rng.randrange(len(part))] ^= 0xff
        return 'bytes'
    if is_mob_id(part):
        which = rng.choice(['Data1', 'Data4', 'instanceHigh', 'SMPTELabel', 'length'])
        if which in ('Data4', 'SMPTELabel'):
            v = list(getattr(part, which))
            v[0] ^= 0xff
        else:
            v = getattr(part, which) ^ 0xff
        setattr(part, which, v)
        return 'mob id ' + which
    if isinstance(part, dict):
        op = rng.choice(['new', 'del', 'set'])
        if op == 'new' or not part:
            part[u'disturbed'] = 42
        elif op == 'del':
            del part[rng.choice(sorted(part.keys(), key=repr))]
        else:
            part[rng.choice(sorted(part.keys(), key=repr))] = 43
        return 'map ' + op
    if isinstance(part, list):
        op = rng.choice(['append', 'pop', 'reverse', 'set'])
        if not part:
            part.append(None)
            op = 'append'
        elif op == 'append':
            part.append(part[0])
        elif op == 'pop':
            part.pop()
        elif op == 'reverse' and len(part) > 1:
            part.reverse()
        else:
            part[rng.randrange(len(part))] = None
        return 'list ' + op
    vs = [(k, v) for k, v in values(part)]
    if not vs:
        return None
    k, v = rng.choice(vs)
    if isinstance(v, bool):
        v = not v
    elif isinstance(v, int):
        v = v + 1 if v < 100 else v - 1
    elif isinstance(v, str):
        v = v + u'!'
    elif isinstance(v, float):
        v = v + 1
    else:
        v = None
    setattr(part, k, v)
    return 'field ' + k
