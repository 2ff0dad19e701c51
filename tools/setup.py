#!/usr/bin/env python3-vt
"""setup_cmd: nothing to build; checks that the back ends are there."""
import shutil
import z3
print('z3', z3.get_version_string())
for s in ('bash', 'zsh', 'fish'):
    print(s, shutil.which(s))
