"""Extraction of the program under analysis from the current tree of /repo.

The harness crate names monomorphic entry points; the driver compiles it together with /repo's
crates and writes their MIR. Nothing that is compiled here is ever run. Results are kept per content
hash, so that several checks of one tree share one extraction.
"""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
DRIVER = os.path.join(VERIF, 'driver')
HARNESS = os.path.join(VERIF, 'harness')
TOOLCHAIN = '+nightly'


class BuildError(Exception):
    pass


def repo_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', 'target', 'node_modules'))
        for f in sorted(files):
            if f.endswith(('.rs', '.toml', '.lock')):
                out.append(os.path.join(root, f))
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:20]


def tree(d, ext):
    out = []
    for root, dirs, files in os.walk(d):
        dirs[:] = sorted(x for x in dirs if x not in ('target', '.git'))
        out += [os.path.join(root, f) for f in sorted(files) if f.endswith(ext)]
    return out


def run(cmd, env, cwd):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def base_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith('CARGO_') and k not in ('CARGO_HOME',) or k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN'):
            del env[k]
    sysroot = subprocess.run(['rustc', TOOLCHAIN, '--print', 'sysroot'], stdout=subprocess.PIPE, text=True, env=env).stdout.strip()
    env['LD_LIBRARY_PATH'] = sysroot + '/lib'
    return env


def driver():
    """Path of the compiled driver, built when its sources changed."""
    key = digest(tree(DRIVER, ('.rs', '.toml', '.lock')))
    exe = os.path.join(BUILD, 'mirdump-' + key)
    if os.path.exists(exe):
        return exe, key
    env = base_env()
    env['CARGO_TARGET_DIR'] = os.path.join(DRIVER, 'target')
    rc, out = run(['cargo', TOOLCHAIN, 'build', '--release', '--offline'], env, DRIVER)
    if rc:
        raise BuildError('the MIR extractor does not build:\n' + out[-4000:])
    shutil.copy2(os.path.join(DRIVER, 'target', 'release', 'mirdump'), exe + '.tmp')
    os.rename(exe + '.tmp', exe)
    return exe, key


def extract(exe, crate, roots, src, target, out, flags=''):
    env = base_env()
    env.update(MIRDUMP_CRATE=crate, MIRDUMP_OUT=out, MIRDUMP_ROOTS=roots, RUSTC_WRAPPER=exe, MIRDUMP_LINT_CRATE='whasm', MIRDUMP_LINT_OUT=out + '.lint',
               RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints allow' + flags, CARGO_TARGET_DIR=target)
    return run(['cargo', TOOLCHAIN, 'build', '--offline'], env, src)


def harness_dump():
    """(path of the MIR of whasm behind the harness roots, roots that no longer compile)"""
    exe, dk = driver()
    key = digest(repo_files() + tree(HARNESS, ('.rs', '.toml', '.lock'))) + dk[:8]
    out = os.path.join(BUILD, 'whasm-%s.json' % key)
    lost = os.path.join(BUILD, 'whasm-%s.lost' % key)
    if os.path.exists(out) and os.path.exists(out + '.lint') and os.path.exists(lost):
        return out, open(lost).read().split()
    work = os.path.join(BUILD, 'h-' + key)
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree(HARNESS, os.path.join(work, 'src'), ignore=shutil.ignore_patterns('target'))
    toml = os.path.join(work, 'src', 'Cargo.toml')
    text = open(toml).read().replace('/repo/', REPO.rstrip('/') + '/')
    open(toml, 'w').write(text)
    rs = os.path.join(work, 'src', 'src', 'roots.rs')
    dropped = []
    for attempt in range(6):
        rc, log = extract(exe, 'verif_harness', 'p_*,v_*,u_*,entry_*,x_*', os.path.join(work, 'src'), os.path.join(work, 'target'), out + '.tmp')
        if rc == 0:
            break
        bad = sorted(set(int(m) for m in re.findall(r'src/roots\.rs:(\d+):\d+', log)))
        lines = open(rs).read().split('\n')
        bad = [b for b in bad if lines[b - 1].strip().endswith(';') and ':' in lines[b - 1] or lines[b - 1].startswith('pub fn')]
        if not bad:
            shutil.rmtree(work, ignore_errors=True)
            raise BuildError('the analysed crates do not compile:\n' + log[-4000:])
        for b in bad:
            dropped.append(re.sub(r'^pub fn ', '', lines[b - 1].strip()).split(':')[0].split('<')[0].split('(')[0])
            lines[b - 1] = ''
        open(rs, 'w').write('\n'.join(lines))
    else:
        raise BuildError('the harness does not compile')
    shutil.rmtree(work, ignore_errors=True)
    open(lost, 'w').write('\n'.join(dropped))
    os.rename(out + '.tmp.lint', out + '.lint')
    os.rename(out + '.tmp', out)
    prune()
    return out, dropped


def prune():
    """Forget extractions of older trees."""
    old = sorted((f for f in os.listdir(BUILD) if re.match(r'(whasm|parser)-.*\.json$', f)), key=lambda f: os.path.getmtime(os.path.join(BUILD, f)))
    for f in old[:-24]:
        for g in (f, f + '.lint', f[:-5] + '.lost'):
            if os.path.exists(os.path.join(BUILD, g)):
                os.remove(os.path.join(BUILD, g))


def parser_dump():
    """MIR of the command line tool, built from a copy of the tree."""
    exe, dk = driver()
    model = os.path.join(HARNESS, 'src', 'model.rs')
    key = digest(repo_files() + [model]) + dk[:8]
    out = os.path.join(BUILD, 'parser-%s.json' % key)
    if os.path.exists(out):
        return out
    work = os.path.join(BUILD, 'p-' + key)
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree(REPO, os.path.join(work, 'repo'), ignore=shutil.ignore_patterns('target', '.git'))
    src = os.path.join(work, 'repo', 'parser')
    # the models of std functions have to be part of the analysed crate
    shutil.copy2(model, os.path.join(work, 'model.rs'))
    with open(os.path.join(src, 'src', 'main.rs'), 'a') as f:
        f.write('\n#[allow(dead_code)] #[path = "%s"] pub mod model;\n' % os.path.join(work, 'model.rs'))
    rc, log = extract(exe, 'parser', 'main', src, os.path.join(work, 'target'), out + '.tmp', ' -Zcrate-attr=feature(try_trait_v2,allocator_api)')
    shutil.rmtree(work, ignore_errors=True)
    if rc:
        raise BuildError('the command line tool does not compile:\n' + log[-4000:])
    if os.path.exists(out + '.tmp.lint'):
        os.remove(out + '.tmp.lint')
    os.rename(out + '.tmp', out)
    return out


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


if __name__ == '__main__':
    with Lock():
        print(driver()[0])
        print(harness_dump())
        print(parser_dump())
