class Gap(Exception):
    """the harness does not fit the code under test (a private name it leans on is gone)"""


def need(obj, *names):
    for n in names:
        if not hasattr(obj, n):
            raise Gap(n)
