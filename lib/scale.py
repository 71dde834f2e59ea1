"""Sizes: small ones mostly, large ones now and then (bugs that need many of something)."""

from hypothesis import strategies as st


def sizes(small, large, lo=0, one_in=16):
    """Integers from lo to small; one in `one_in` times up to large."""
    big = max(small + 1, lo)
    return st.integers(0, one_in - 1).flatmap(
        lambda k: st.integers(big, large) if k == one_in - 1 else st.integers(lo, small)
    )


def flags(one_in=16):
    """True one in `one_in` times."""
    return st.integers(0, one_in - 1).map(lambda k: k == one_in - 1)
