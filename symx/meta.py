LEVELS = {}
ASSUMPTIONS = [
    'keyed hashes (HMAC) and hashes are ideal: equal results exactly for equal arguments',
    'sets iterate in insertion order; the clock does not advance inside one call unless a harness says so',
    'logging and warnings have no effect on behaviour',
    'C-level library functions behave as the models in symx/models.py (base64, UTF-8, percent-escapes, time formatting, regular expressions); every counterexample is replayed against the unmodified code and the real libraries before it is reported',
]
