"""All randomness: one integer decides everything."""
import hashlib
import random


def derive(*parts) -> int:
    """A 63-bit seed that depends on nothing but ``parts`` (no hash(), no clock)."""
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big") >> 1


def rng(*parts) -> random.Random:
    return random.Random(derive(*parts))
