#!/usr/bin/env python3
"""Builds the executor and the dependencies of the harness crates."""
import fcntl
import os
import sys
import tempfile
import shutil

import check


def main():
    os.makedirs(check.BUILD, exist_ok=True)
    check.TOOLCHAIN = check.toolchain()
    scratch = tempfile.mkdtemp(prefix="setup-", dir=check.BUILD)
    try:
        with open(os.path.join(check.BUILD, "lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            check.build_engine()
            check.build_ir("c01", scratch)
            check.build_replay("c01", scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        main()
    except check.Fail as e:
        print("ERROR: %s" % e)
        sys.exit(2)
