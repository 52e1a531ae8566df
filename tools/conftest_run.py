import os
import sys

import gm_env
gm_env.setup()
import pytest  # noqa: E402
ROOT = os.environ.get('GM_ROOT', '/repo')
sys.exit(pytest.main([
    '-q', '-p', 'no:cacheprovider', '--rootdir', ROOT, '--deselect',
    'tests/test_conformance.py::PEP8TestCase::test_lint', ROOT + '/tests',
    '--maxfail=200'] + sys.argv[1:]))
