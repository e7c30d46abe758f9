"""Stage a private copy of /repo's package and compile its extension modules.

Nothing is ever written under /repo.  The extension modules are described by
/repo/setup.py itself (it is executed with a stubbed distutils), so a change
of sources or include directories in the tree is honoured.
"""
import concurrent.futures
import hashlib
import json
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get('XMON_REPO', '/repo')


class StageError(Exception):
    pass


_QUERY = r"""
import json, sys
sys.path.insert(0, '.')
sys.argv = ['setup.py', '--version']
import setuptools
from distutils.core import run_setup
dist = run_setup('setup.py', stop_after='init')
print('XMON'+json.dumps([{
    'name': e.name, 'sources': list(e.sources),
    'include_dirs': list(e.include_dirs or []),
    'macros': [list(m) for m in e.define_macros or []],
    'extra': list(e.extra_compile_args or [])} for e in dist.ext_modules]))
"""


class _Ext(object):
    def __init__(self, rec):
        self.name, self.sources = rec['name'], rec['sources']
        self.include_dirs = rec['include_dirs']
        self.define_macros = [tuple(m) for m in rec['macros']]
        self.extra_compile_args = rec['extra']


def _extensions(root):
    """The extension list, as setup.py of the staged tree declares it"""
    out = subprocess.run([sys.executable, '-B', '-c', _QUERY], cwd=root,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True)
    for line in out.stdout.splitlines():
        if line.startswith('XMON'):
            return [_Ext(rec) for rec in json.loads(line[4:])]
    raise StageError('setup.py did not describe the extensions: ' +
                     out.stdout[-3000:])


FLAGS = {
    'plain': ['-O1', '-g0', '-ftrivial-auto-var-init=pattern'],
    'asan': ['-O1', '-g1', '-fsanitize=address,undefined',
             '-fno-sanitize=vptr', '-fno-omit-frame-pointer',
             '-fsanitize-recover=undefined'],
    'debug': ['-O0', '-g1'],
}


def _run(cmd, cwd):
    out = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True)
    if out.returncode:
        raise StageError('command failed: %s\n%s' % (' '.join(cmd),
                                                     out.stdout[-4000:]))


def stage(dest, kind='plain'):
    """Copy the package into dest and build the extensions; returns dest."""
    os.makedirs(dest, exist_ok=True)
    shutil.copytree(os.path.join(REPO, 'xboa'), os.path.join(dest, 'xboa'),
                    ignore=shutil.ignore_patterns('*.so', '__pycache__',
                                                  '*.pyc', 'test.log'),
                    dirs_exist_ok=True)
    shutil.copy(os.path.join(REPO, 'setup.py'), dest)
    exts = _extensions(dest)
    cxx = os.environ.get('CXX', 'g++')
    flags = ['-fPIC', '-w', '-fwrapv', '-fno-strict-aliasing'] + FLAGS[kind]
    py_inc = '-I'+sysconfig.get_paths()['include']
    objs = {}
    jobs = []
    for ext in exts:
        for src in ext.sources:
            key = (src, tuple(ext.include_dirs), tuple(map(str, ext.define_macros)))
            if key in objs:
                continue
            obj = os.path.join(dest, 'obj_%s.o' %
                               hashlib.md5(repr(key).encode()).hexdigest()[:12])
            objs[key] = obj
            cmd = [cxx] + flags + ['-c', src, '-o', obj, py_inc] + \
                  ['-I'+i for i in ext.include_dirs] + ext.extra_compile_args + \
                  ['-D%s=%s' % m if m[1] is not None else '-D%s' % m[0]
                   for m in ext.define_macros]
            jobs.append(cmd)
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        list(pool.map(lambda c: _run(c, dest), jobs))
    suffix = sysconfig.get_config_var('EXT_SUFFIX') or '.so'
    links = []
    for ext in exts:
        out = os.path.join(dest, *ext.name.split('.')) + suffix
        os_ = [objs[(s, tuple(ext.include_dirs), tuple(map(str, ext.define_macros)))]
               for s in ext.sources]
        links.append([cxx, '-shared'] + flags + os_ + ['-o', out])
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        list(pool.map(lambda c: _run(c, dest), links))
    for obj in objs.values():
        os.unlink(obj)
    os.unlink(os.path.join(dest, 'setup.py'))
    return dest
