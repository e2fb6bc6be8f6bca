"""Structural snapshots and well-formedness of live configs."""
from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.base import Container, Node, UnionNode


def special(node):
    """None / '???' / interpolation string held by a container itself, or False."""
    return node._is_none() or node._is_missing() or node._is_interpolation()


def keys_of(c):
    """Keys of the children of a container node."""
    if special(c):
        return []
    if isinstance(c, ListConfig):
        return list(range(len(c)))
    return list(c.keys())


def child(c, k):
    n = c._get_node(k, validate_access=False)
    # a key that the container itself refuses is still there
    return c.__dict__["_content"][k] if n is None else n


def nodes(root, path=(), parent=None):
    """Yield (path, parent node, node) for every node, including what a union wraps."""
    yield path, parent, root
    if isinstance(root, Container):
        for k in keys_of(root):
            yield from nodes(child(root, k), path + (k,), root)
    elif isinstance(root, UnionNode):
        v = root._value()
        if isinstance(v, Node):
            yield path, root, v


def containers(root):
    return [(p, n) for p, _, n in nodes(root) if isinstance(n, Container)]


def raw(node):
    """Plain value of a node: containers recursively, interpolations as their text."""
    if isinstance(node, UnionNode):
        v = node._value()
        return raw(v) if isinstance(v, Node) else v
    if isinstance(node, Container):
        if node._is_none():
            return None
        if special(node):
            return node._value()
        if isinstance(node, ListConfig):
            return [raw(child(node, i)) for i in keys_of(node)]
        return {k: raw(child(node, k)) for k in keys_of(node)}
    if isinstance(node, Node):
        return node._value()
    return node


def tname(t):
    try:
        from omegaconf._utils import type_str

        return type_str(t, include_module_name=True)
    except Exception:
        return repr(t)


def snap(node, ids=False):
    """Everything a failed operation must leave alone: values, types, optionality, flags, keys."""
    md = node._metadata
    base = [
        type(node).__name__,
        tname(md.ref_type),
        tname(md.object_type),
        md.optional,
        repr(node._key()),
        tuple(sorted((k, v) for k, v in (md.flags or {}).items() if v is not None)),
    ]
    if ids:
        base.append(id(node))
    if isinstance(node, Container):
        base.append(tname(md.key_type))
        base.append(tname(md.element_type))
        if special(node):
            base.append(("special", repr(node._value())))
        else:
            base.append(tuple((type(k).__name__, repr(k), snap(child(node, k), ids)) for k in keys_of(node)))
    elif isinstance(node, UnionNode):
        v = node._value()
        base.append(snap(v, ids) if isinstance(v, Node) else ("special", repr(v)))
    else:
        v = node._value()
        base.append((type(v).__name__, repr(v)))
    return tuple(base)


def first_diff(a, b, path=""):
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return f"{path}: length {len(a)} -> {len(b)}: {a!r:.300} -> {b!r:.300}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, f"{path}/{i}")
            if d:
                return d
        return None
    return None if a == b and type(a) is type(b) else f"{path}: {a!r:.300} -> {b!r:.300}"


def ids_of(root):
    return {id(n) for _, _, n in nodes(root)}


def wellformed(root, mon, ctx="", root_key=True):
    """C03's invariants, checked on a live tree."""
    seen = {}
    n = 0
    for path, parent, node in nodes(root):
        n += 1
        if id(node) in seen:
            mon.fail(
                f"{ctx}: one node is held in two places: {seen[id(node)]} and {path}",
                mech="shared-node",
                root=root,
            )
        seen[id(node)] = path
        if parent is None:
            continue
        if node._get_parent() is not parent:
            mon.fail(
                f"{ctx}: node at {path} does not report the container that holds it as its parent",
                mech="parent",
                root=root,
                parent=node._get_parent(),
            )
        if isinstance(parent, UnionNode):
            continue
        k = path[-1]
        nk = node._key()
        if nk != k:
            mon.fail(
                f"{ctx}: node at {path} reports key {nk!r}",
                mech="key",
                root=root,
            )
    return n
