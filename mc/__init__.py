"""Explicit-state exploration of HapuaModel: every case of a bounded space is run on the real code."""
