"""
The known findings, as KNOWN_FINDINGS.md lists them, in executable form.
"""


def halftone3():
    from pbt.api import L
    try:
        L.Halftone3()
    except Exception:
        return True
    return False


FINDINGS = [
    {'property': 'C22', 'what': 'constructing Halftone3() raises',
     'still_fails': halftone3},
]
