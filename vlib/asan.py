"""Build the extensions with AddressSanitizer outside of the tree (products go to the given scratch directory)."""
import fcntl, os, subprocess, sys

def main(repo, out):
    env = dict(os.environ, CCACHE_DISABLE='1', CFLAGS='-fsanitize=address -fno-omit-frame-pointer -O1 -g0',
               CXXFLAGS='-fsanitize=address -fno-omit-frame-pointer -O1 -g0', LDFLAGS='-fsanitize=address')
    with open(os.path.join(repo, 'build', '.verif-lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return subprocess.call([sys.executable, 'setup.py', '-q', 'build_ext', '--build-lib', out, '--build-temp',
                                os.path.join(out, 'temp'), '--force', '-j8'], cwd=repo, env=env)

if __name__ == '__main__':
    sys.exit(main(sys.argv[1], sys.argv[2]))
