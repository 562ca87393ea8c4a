"""pyvc: a small deductive verifier for the Python/Cython subset used by /repo/intvalpy.

load    - reads the current source (Cython text is normalised mechanically to Python syntax)
terms   - real-arithmetic terms, the rounding theory, the proof obligations and their discharge
interp  - symbolic executor of the Python semantics, one run per path
"""
