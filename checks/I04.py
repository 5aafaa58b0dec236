import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import check
from checks import I03


def main():
    ck = check.Check(
        "I04", "other",
        technique="typestate analysis of every allocation and descriptor that initialization acquires, with the outcome "
                  "'failed' tracked separately",
        rule="no path on which an acquisition failed reads or writes through the result or passes it on")
    I03.run(ck, ("unchecked",), 100)


check.main(main)
