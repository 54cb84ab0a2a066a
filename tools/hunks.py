#!/usr/bin/python3
"""hunks.py FILE MSG N...: commit only the hunks no. N (1-based, of git diff -U1) of FILE in the cwd."""
import re
import subprocess
import sys

fname, msg, nums = sys.argv[1], sys.argv[2], set(map(int, sys.argv[3:]))
diff = subprocess.run(['git', 'diff', '-U1', fname], stdout=subprocess.PIPE, check=True).stdout.decode()
head, *hunks = re.split(r'(?m)^(?=@@)', diff)
patch = head + ''.join(h for i, h in enumerate(hunks, 1) if i in nums)
subprocess.run(['git', 'apply', '--cached', '--unidiff-zero', '--recount', '-'], input=patch.encode(), check=True)
subprocess.run(['git', 'commit', '-qm', msg], check=True)
