import os

from common import *


def main():
    for cc in (GCC, CLANG):
        r = run([cc, "--version"])
        if r.returncode != 0:
            print("missing compiler: %s" % cc)
            return 1
        print(r.stdout.splitlines()[0])
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    return 0
