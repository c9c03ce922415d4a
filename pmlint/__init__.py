"""Repository-specific static analyzer for pymorphy2 (see /verif/DESIGN.md)."""
