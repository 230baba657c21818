"""reference model of the third party jsonpointer module (RFC 6901); analysed, never executed"""


class JsonPointerException(Exception):
    pass


def parts_of(pointer):
    p = pointer.split("/")
    if p[0] != "":
        raise JsonPointerException("Location must start with /")
    out = []
    for x in p[1:]:
        out.append(x.replace("~1", "/").replace("~0", "~"))
    return out


def step(doc, part):
    if isinstance(doc, dict):
        if part not in doc:
            raise JsonPointerException("member not found")
        return doc[part]
    if isinstance(doc, list):
        if not part.isdigit():
            raise JsonPointerException("not a valid sequence index")
        k = int(part)
        if k >= len(doc):
            raise JsonPointerException("index is out of bounds")
        return doc[k]
    raise JsonPointerException("does not support indexing")


def put(parent, part, value):
    if isinstance(parent, dict):
        parent[part] = value
    elif isinstance(parent, list):
        if part == "-":
            parent.append(value)
        else:
            if not part.isdigit():
                raise JsonPointerException("not a valid sequence index")
            k = int(part)
            if k >= len(parent):
                raise JsonPointerException("Invalid assignment target")
            parent[k] = value
    else:
        raise JsonPointerException("does not support indexing")


class JsonPointer:
    def __init__(self, pointer):
        self.parts = parts_of(pointer)

    def resolve(self, doc):
        for part in self.parts:
            doc = step(doc, part)
        return doc

    def get(self, doc):
        return self.resolve(doc)

    def set(self, doc, value, inplace=True):
        if len(self.parts) == 0:
            if inplace:
                raise JsonPointerException("Cannot set root in place")
            return value
        if not inplace:
            import copy
            doc = copy.deepcopy(doc)
        parent = doc
        for part in self.parts[:-1]:
            parent = step(parent, part)
        put(parent, self.parts[-1], value)
        return doc


_nothing = object()


def resolve_pointer(doc, pointer, default=_nothing):
    if default is _nothing:
        return JsonPointer(pointer).resolve(doc)
    try:
        return JsonPointer(pointer).resolve(doc)
    except JsonPointerException:
        return default


def set_pointer(doc, pointer, value, inplace=True):
    return JsonPointer(pointer).set(doc, value, inplace)
