# Model of hashlib: what is hashed determines the digest.
import sadigest

class sha1:

    def __init__(self, data=b"", **kwargs):
        self._data = b""
        self.update(data)

    def update(self, data): self._data = self._data + data

    def copy(self): return self.__class__(self._data)

    def hexdigest(self): return sadigest.hexdigest(self._data)

class md5(sha1): pass
class sha224(sha1): pass
class sha256(sha1): pass
class sha384(sha1): pass
class sha512(sha1): pass
