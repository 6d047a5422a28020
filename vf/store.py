"""The probe of the node store (native/probe.cc)."""
import ctypes
import _graphillion

U = ctypes.c_ulonglong


class Store(object):
    def __init__(self):
        L = self.lib = ctypes.CDLL(_graphillion.__file__)
        L.vf_message.restype = ctypes.c_char_p
        for f in ('vf_node_used', 'vf_node_spc', 'vf_overflowed'):
            getattr(L, f).restype = U
        L.vf_limit.argtypes = [U]

    def used(self): return self.lib.vf_node_used()
    def space(self): return self.lib.vf_node_spc()
    def overflowed(self): return self.lib.vf_overflowed()
    def limit(self, n): self.lib.vf_limit(n)
    def gc(self): return self.lib.vf_gc()

    def audit(self):
        """(what is wrong or None, references from outside, dead nodes)"""
        ext, dead = U(), U()
        ok = self.lib.vf_audit(ctypes.byref(ext), ctypes.byref(dead))
        return (None if ok else self.lib.vf_message().decode()), ext.value, dead.value
