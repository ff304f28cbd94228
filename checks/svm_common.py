"""Shared: SVMlight text with symbolic numbers and symbolic characters."""
import io

CPP = "rankeval/dataset/_svmlight_format.cpp"
PRELOAD_LL = [CPP]


def SVM(E):
    from symx import llnative
    ext = llnative.extension(CPP, "PyInit__svmlight_format")
    E.machine = ext.machine
    return {"rankeval.dataset._svmlight_format": ext}


class SymFile(object):
    """binary file whose bytes may be symbolic"""
    def __init__(self, chars):
        self.chars, self.pos = chars, 0

    def read(self, n=-1):
        raise AssertionError("read")

    def readline(self, n=-1):
        from symx.llnative import SymText
        i, c = self.pos, self.chars
        while i < len(c):
            i += 1
            if bool(c[i - 1] == 10):
                break
        out = SymText(c[self.pos:i])
        self.pos = i
        return out


def binary(E, parts):
    """file object over bytes, texts and (symbolic) characters"""
    chars = []
    for p in parts:
        if isinstance(p, bytes):
            chars += [b - 256 if b > 127 else b for b in p]
        elif isinstance(p, str):
            chars += [ord(c) for c in p]
        else:
            chars.append(p)
    if E.symbolic:
        return SymFile(chars)
    return io.BytesIO(bytes(int(c) & 255 for c in chars))


def char(E, name, lo=-128, hi=127):
    return E.int(name, lo, hi)
