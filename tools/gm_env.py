"""Makes the whole of golem_messages importable from /repo in this sandbox.

pyelliptic and bitcoin cannot be imported here, so both get a stand-in with the
same observable behaviour (AES-128-CTR and HMAC from pycryptodome/stdlib, the
key pair from coincurve).  The package is registered without running its
__init__.py (which needs RELEASE-VERSION); what it does is repeated below.
Nothing of golem_messages itself is replaced.
"""
import hashlib
import hmac
import importlib
import os
import sys
import types
from importlib.machinery import ModuleSpec
import importlib.util

ROOT = os.environ.get('GM_ROOT', '/repo')
VERSION = '3.1.2'


def _stub_pyelliptic():
    import coincurve
    from Crypto.Cipher import AES
    from Crypto.Util import Counter

    mod = types.ModuleType('pyelliptic')

    class _C:
        @staticmethod
        def get_blocksize():
            return 16

    class OpenSSL:
        @staticmethod
        def get_cipher(name):
            assert name == 'aes-128-ctr', name
            return _C

    class Cipher:
        def __init__(self, key, iv, do, ciphername='aes-128-ctr'):
            assert ciphername == 'aes-128-ctr'
            ctr = Counter.new(128, initial_value=int.from_bytes(iv, 'big'))
            self._c = AES.new(key, AES.MODE_CTR, counter=ctr)

        @staticmethod
        def get_all_cipher():
            return ['aes-128-ctr']

        @staticmethod
        def gen_IV(name):
            return os.urandom(16)

        def ciphering(self, data):
            return self._c.encrypt(data)

    class ECC:
        def __init__(self, pubkey_x=None, pubkey_y=None, raw_privkey=None,
                     curve=None):
            if raw_privkey is None:
                raw_privkey = coincurve.PrivateKey().secret
            self.privkey = raw_privkey
            pub = coincurve.PrivateKey(raw_privkey).public_key.format(
                compressed=False)[1:]
            self.pubkey_x = pubkey_x or pub[:32]
            self.pubkey_y = pubkey_y or pub[32:]

        def raw_check_key(self, privkey, x, y):
            pub = coincurve.PrivateKey(privkey).public_key.format(
                compressed=False)[1:]
            return 0 if pub == x + y else -1

    mod.OpenSSL, mod.Cipher, mod.ECC = OpenSSL, Cipher, ECC
    mod.hmac_sha256 = lambda k, m: hmac.new(k, m, hashlib.sha256).digest()
    mod.equals = hmac.compare_digest
    return mod


def _stub_bitcoin():
    mod = types.ModuleType('bitcoin')

    def get_privkey_format(priv):
        assert len(priv) == 32
        return 'bin'
    mod.get_privkey_format = get_privkey_format
    return mod


def _stub_ethereum():
    # only `denoms.ether` is used, by the factories
    pkg, mod = types.ModuleType('ethereum'), types.ModuleType('ethereum.utils')
    from Crypto.Hash import keccak
    mod.sha3 = lambda d: keccak.new(
        digest_bits=256, data=d.encode() if isinstance(d, str) else d).digest()
    mod.denoms = types.SimpleNamespace(ether=10 ** 18)
    pkg.utils, pkg.__path__ = mod, []
    return pkg, mod


def setup():
    if 'golem_messages' in sys.modules:
        return sys.modules['golem_messages']
    sys.dont_write_bytecode = True
    sys.modules.setdefault('pyelliptic', _stub_pyelliptic())
    sys.modules.setdefault('bitcoin', _stub_bitcoin())
    sys.modules['ethereum'], sys.modules['ethereum.utils'] = _stub_ethereum()
    import toolz  # eth-rlp looks for it under another name
    sys.modules.setdefault('eth_utils.toolz', toolz)
    spec = ModuleSpec('golem_messages', None, is_package=True)
    spec.submodule_search_locations = [ROOT + '/golem_messages']
    pkg = importlib.util.module_from_spec(spec)
    pkg.__file__ = ROOT + '/golem_messages/__init__.py'
    pkg.__version__ = VERSION
    sys.modules['golem_messages'] = pkg
    sys.path.insert(0, ROOT)
    pkg.ECCx = importlib.import_module('golem_messages.cryptography').ECCx
    sc = importlib.import_module('golem_messages.shortcuts')
    pkg.dump, pkg.load = sc.dump, sc.load
    return pkg
