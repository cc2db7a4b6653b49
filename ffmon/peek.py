"""Access to internal state by what it holds, not by what it is called."""

import contextlib


def tags(metadata):
    """All tags of quantizer metadata."""
    from fastforward.nn.quantizer import Tag

    found = set()
    for v in vars(metadata).values():
        if isinstance(v, set | frozenset | list | tuple) or (isinstance(v, dict) and v and all(isinstance(k, Tag) for k in v)):
            found |= {t for t in v if isinstance(t, Tag)}
    return found


def position(owner, item):
    """Position of an item in the list that an object keeps it in."""
    for v in vars(owner).values():
        if isinstance(v, list | tuple):
            for i, x in enumerate(v):
                if x is item:
                    return i
    raise LookupError(item)


@contextlib.contextmanager
def restored(*owners):
    """Restore the dictionaries that objects (or modules) hold."""
    saved = []
    for o in owners:
        for k, v in vars(o).items():
            if isinstance(v, dict) and not (k.startswith("__") and k.endswith("__")):
                saved.append((v, dict(v)))
    try:
        yield
    finally:
        for v, old in saved:
            v.clear()
            v.update(old)


def registries(module):
    """Instances of classes of a module that the module itself holds."""
    return [v for v in vars(module).values() if type(v).__module__ == module.__name__]
