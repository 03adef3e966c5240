"""Stands for an installed extension that cannot be loaded."""
from collections import OrderedDict as AtomType  # noqa: F401

raise ImportError("librust_protosym.so: cannot open shared object file: No such file or directory", name="rust_protosym")
