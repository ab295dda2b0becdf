#!/usr/bin/env python3
"""Checks that the installed verifier is the one the framework was built with;
nothing is downloaded or built (every check compiles what it needs)."""
import shutil, subprocess, sys
bad = [t for t in ('cbmc', 'goto-cc', 'goto-instrument', 'gcc') if not shutil.which(t)]
if bad:
    sys.exit('missing tools: ' + ' '.join(bad))
print('cbmc', subprocess.run(['cbmc', '--version'], capture_output=True, text=True).stdout.strip())
