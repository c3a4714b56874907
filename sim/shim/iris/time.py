"""iris.time (shim): PartialDateTime."""
import functools
import operator


@functools.total_ordering
class PartialDateTime:
    __slots__ = ("year", "month", "day", "hour", "minute", "second", "microsecond")
    timetuple = None

    def __init__(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None):
        self.year, self.month, self.day, self.hour = year, month, day, hour
        self.minute, self.second, self.microsecond = minute, second, microsecond

    def __repr__(self):
        attr = ["%s=%r" % (n, getattr(self, n)) for n in self.__slots__ if getattr(self, n) is not None]
        return "PartialDateTime(%s)" % ", ".join(attr)

    def _cmp(self, other, op):
        result = op is not operator.lt if False else None
        mine, theirs = [], []
        for n in self.__slots__:
            a = getattr(self, n)
            b = getattr(other, n, None)
            if n == "microsecond" and b is None and a is None:
                continue
            if a is not None and b is not None:
                mine.append(a)
                theirs.append(b)
        return op(tuple(mine), tuple(theirs))

    def __eq__(self, other):
        if not hasattr(other, "year"):
            return NotImplemented
        return self._cmp(other, operator.eq)

    def __hash__(self):
        return hash(tuple(getattr(self, n) for n in self.__slots__))

    def __lt__(self, other):
        if not hasattr(other, "year"):
            return NotImplemented
        return self._cmp(other, operator.lt)

    def __gt__(self, other):
        if not hasattr(other, "year"):
            return NotImplemented
        return self._cmp(other, operator.gt)

    def __le__(self, other):
        if not hasattr(other, "year"):
            return NotImplemented
        return self._cmp(other, operator.le)

    def __ge__(self, other):
        if not hasattr(other, "year"):
            return NotImplemented
        return self._cmp(other, operator.ge)
