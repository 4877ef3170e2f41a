"""Importable types for serialization; submodules are not imported here."""
