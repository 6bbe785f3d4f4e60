"""setup_cmd: checks that the tools the framework needs are there (nothing to build ahead of a check)."""
import shutil, sys
import z3, pycparser
for t in ('z3-new', 'cvc5', 'gcc', 'g++', 'clang++'):
    if not shutil.which(t):
        print('missing tool', t); sys.exit(1)
print('ok: z3', z3.get_version_string(), 'pycparser', pycparser.__version__)
