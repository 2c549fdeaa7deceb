"""Configurations of the repository itself (inputs only; what is expected of
them comes from the reference)."""
import os
import build


def files(maxsize=None):
    out = []
    for d, _, fs in sorted(os.walk(build.REPO)):
        if "/." in d:
            continue
        for f in sorted(fs):
            if f.endswith(".ort") or f.endswith(".nresult"):
                with open(os.path.join(d, f), "rb") as h:
                    b = h.read()
                if maxsize is None or len(b) <= maxsize:
                    out.append((os.path.relpath(os.path.join(d, f), build.REPO), b.decode("latin1")))
    return out
