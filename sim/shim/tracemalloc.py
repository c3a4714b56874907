"""tracemalloc stand-in (PyPy has no _tracemalloc); the memprofile workload replaces it per run."""
_on = False


class Snapshot:
    def statistics(self, key_type="lineno", cumulative=False):
        return []

    def dump(self, filename):
        with open(filename, "wb") as f:
            f.write(b"snapshot")


def start(nframe=1):
    global _on
    _on = True


def stop():
    global _on
    _on = False


def is_tracing():
    return _on


def take_snapshot():
    return Snapshot()


def get_traced_memory():
    return (0, 0)
