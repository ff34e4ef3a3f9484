#!/opt/venv/bin/python
"""run_check.py ID [--thorough] [--replay FILE | --case scenario:seed:index] [--only scenario,..]"""
import importlib
import logging
import os
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
if os.environ.get('PYTHONHASHSEED') != '0' or os.path.realpath(sys.prefix) != '/opt/venv':
    # fixed hash seed and the interpreter which has dcf's dependencies
    env = dict(os.environ, PYTHONHASHSEED='0', MPLBACKEND='Agg')
    exe = VENV if os.path.exists(VENV) else sys.executable
    if os.environ.get('DCFMON_REEXEC') != '1':
        env['DCFMON_REEXEC'] = '1'
        os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)
# never use or write byte code files: what counts is the present source
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-dcfmon-pycache'
REPO = os.environ.get('DCFMON_REPO', '/repo')
sys.path[:0] = [REPO, HERE]
sys.setrecursionlimit(1000)
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)


def main():
    from dcfmon import core
    pid = sys.argv[1]
    try:
        import dcf
    except Exception as e:
        print('ERROR: dcf does not import: %r' % e)
        return 2
    if not os.path.realpath(dcf.__file__).startswith(os.path.realpath(REPO) + os.sep):
        print('ERROR: dcf imported from %s' % dcf.__file__)
        return 2
    from dcfmon import registry
    mod = importlib.import_module('dcfmon.' + registry.MODULES[pid])
    prop = mod.PROPS[pid]
    return core.run(prop)


if __name__ == '__main__':
    sys.exit(main())
