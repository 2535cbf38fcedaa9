"""Control of numpy's global generator: ordinary seeds and crafted extreme outputs."""
import random

import numpy as np

M = 0xFFFFFFFF


def untemper(y):
    """Inverse of the output transformation of MT19937."""
    y ^= y >> 18
    y ^= (y << 15) & 0xEFC60000
    y &= M
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9D2C5680)
    y = x & M
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & M


def craft(outputs):
    """Make numpy's global generator return these 32-bit words next (up to 624)."""
    words = list(outputs)[:624]
    filler = random.Random(len(words))
    words += [filler.getrandbits(32) for _ in range(624 - len(words))]
    key = np.array([untemper(int(w) & M) for w in words], dtype=np.uint32)
    np.random.set_state(("MT19937", key, 0, 0, 0.0))


def set_generator(spec):
    """spec: {"seed": n} or {"pattern": name, "seed": n}"""
    pattern = spec.get("pattern")
    if pattern is None:
        np.random.seed(spec["seed"] & M)
        return
    rng = random.Random(spec["seed"])
    if pattern == "zeros":
        words = [0] * 600
    elif pattern == "ones":
        # enough variety that rejection sampling of bounded integers ends
        words = [M if i % 3 else rng.getrandbits(32) for i in range(600)]
    elif pattern == "edges":
        words = [rng.choice([0, 0, M, M, 1, M - 1, 1 << 31, rng.getrandbits(32)]) for _ in range(600)]
    elif pattern == "repeat":
        block = [rng.getrandbits(32) for _ in range(rng.randint(2, 7))]
        words = (block * 600)[:600]
    else:
        raise ValueError(pattern)
    craft(words)


def draw_spec(rng):
    spec = dict(seed=rng.getrandbits(32))
    if rng.random() < 0.5:
        spec["pattern"] = rng.choice(["zeros", "ones", "edges", "edges", "repeat"])
    return spec
