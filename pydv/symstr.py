"""Symbolic strings: an unknown name, and a known name in unknown letter case."""
from .core import cur, Unsupported


class AnyStr(str):
    """any string that is none of the names known to the code, in any letter case"""

    def __new__(cls, text="<any other name>"):
        return str.__new__(cls, text)

    def __eq__(self, o):
        if isinstance(o, AnyStr):
            return o is self or str(o) == str(self)
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(str(self))

    def lower(self):
        return self

    upper = title = capitalize = casefold = strip = lower

    def _no(self, *a, **k):
        raise Unsupported("text of an unknown name is examined")
    __getitem__ = __iter__ = __len__ = __contains__ = startswith = endswith = replace = split = find = index = __lt__ = __gt__ = __le__ = __ge__ = isdigit = isupper = islower = _no

    def __bool__(self):
        return True


class CaseStr(str):
    """a known name in any letter case"""

    def __new__(cls, text):
        s = str.__new__(cls, text.lower())
        s.text = text.lower()
        s.fixed = None
        s.nots = set()
        return s

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, AnyStr) or not isinstance(o, str):
            return False
        if o.lower() != self.text:
            return False
        if self.text.upper() == self.text.lower():
            return o == self.text
        if self.fixed is not None:
            return self.fixed == str(o)
        k = str.__str__(o)
        if k in self.nots:
            return False
        if cur().choose(2, "letter case") == 0:
            self.nots.add(k)
            return False
        self.fixed = k
        return True

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        raise Unsupported("hash of a name in unknown letter case")

    def __str__(self):
        return self

    def lower(self):
        return self.text

    casefold = lower

    def upper(self):
        return self.text.upper()

    def capitalize(self):
        return self.text.capitalize()

    def title(self):
        return self.text.title()

    def strip(self, *a):
        if self.text.strip(*a) != self.text:
            raise Unsupported("strip")
        return self

    def __bool__(self):
        return bool(self.text)

    def _no(self, *a, **k):
        raise Unsupported("text of a name in unknown letter case is examined")
    __getitem__ = __iter__ = __contains__ = startswith = endswith = replace = split = find = index = __lt__ = __gt__ = __le__ = __ge__ = isupper = islower = _no

    def __len__(self):
        return len(self.text)


def name(u, text):
    """text in any letter case (in concrete runs: some letter case)"""
    if getattr(u, "concrete", False):
        import random
        r = random.Random(text)
        return "".join(ch.upper() if r.random() < .5 else ch for ch in text)
    return CaseStr(text)


def unknown(u, text="unknown name"):
    return text if getattr(u, "concrete", False) else AnyStr(text)
