"""Builds the simulator binaries from /repo's working tree into /verif/build."""
import concurrent.futures as cf, fcntl, glob, hashlib, os, re, subprocess

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SIM = os.path.join(VERIF, 'sim')
CXX = 'clang++'
LIBDIR = '/usr/lib/x86_64-linux-gnu'


class BuildError(Exception):
    pass


# Sources of /repo that need protobuf's converter headers (not installed here).
CONVERTER = {'json_request_translator.cc', 'prefix_writer.cc', 'request_message_translator.cc', 'request_stream_translator.cc',
             'request_weaver.cc', 'response_to_json_translator.cc', 'status_error_listener.cc', 'type_helper.cc'}


def repo_sources(kind):
    out = []
    for p in sorted(glob.glob(REPO + '/src/*.cc')):
        b = os.path.basename(p)
        if kind == 'core' and b in CONVERTER:
            continue
        out.append(p)
    return out


COMMON = ['-std=c++20', '-O1', '-g1', '-fno-omit-frame-pointer', '-I' + SIM, '-I' + REPO + '/src/include', '-Wno-everything']
ASAN = ['-DSIM_SYSTEM_MALLOC', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']

TSAN = ['-fsanitize=thread', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-builtin-memcmp']


def _wraps():
    names = set(re.findall(r'^WM?\(\w+\*?, (\w+), ', _read(SIM + '/wraps.cc').decode(), re.M))
    for f in ('wraps.cc', 'tsanrt.cc'):
        names |= set(re.findall(r"__wrap_(\w+)\s*\(", _read(SIM + '/' + f).decode()))
    return ['-no-pie'] + ['-Wl,--wrap=' + n for n in sorted(names)]


# name -> harness sources with flags, repo source set with flags, link flags
BINS = {
    'stream_fast': dict(harness=['core.cc', 'alloc.cc', 'stream_scn.cc', 'stream_main.cc'], repo='core', flags=[], link=[]),
    'stream_asan': dict(harness=['core.cc', 'alloc.cc', 'stream_scn.cc', 'stream_main.cc'], repo='core', flags=ASAN,
                        link=['-fsanitize=address,undefined']),
}


ROUTER = ['core.cc', 'alloc.cc', 'simsched.cc', 'routemodel.cc', 'router_scn.cc']
BINS['router_thr'] = dict(mut=['mut_router.cc'], mutflags=TSAN, harness=ROUTER + ['tsanrt.cc', 'wraps.cc'], repo='core', flags=[],
                          gen=True, gensrc=['google/api/http.pb.cc', 'google/api/annotations.pb.cc'], link='wraps')
BINS['router_asan'] = dict(mut=['mut_router.cc'], mutflags=ASAN, harness=ROUTER, repo='core', flags=ASAN,
                           gen=True, gensrc=['google/api/http.pb.cc', 'google/api/annotations.pb.cc'], link=['-fsanitize=address,undefined'])

TRANS = ['core.cc', 'alloc.cc', 'jsonmodel.cc', 'transmodel.cc', 'trans_scn.cc', 'trans_main.cc', 'shim_impl.cc', 'simsched.cc']
SHIM = ['-I' + SIM + '/shim']
BINS['trans_fast'] = dict(mut=['shim_typeinfo.cc'], mutflags=[], harness=TRANS, repo='all', flags=[], inc=SHIM, link=[])
BINS['trans_asan'] = dict(mut=['shim_typeinfo.cc'], mutflags=ASAN, harness=TRANS, repo='all', flags=ASAN, inc=SHIM, link=['-fsanitize=address,undefined'])

E2E = ['core.cc', 'alloc.cc', 'simsched.cc', 'routemodel.cc', 'jsonmodel.cc', 'transmodel.cc', 'types_scn.cc', 'e2e_scn.cc', 'e2e_main.cc', 'shim_impl.cc']
BINS['e2e_thr'] = dict(mut=['mut_router.cc', 'shim_typeinfo.cc'], mutflags=TSAN, harness=E2E + ['tsanrt.cc', 'wraps.cc'], repo='all', flags=[], inc=SHIM,
                       gen=True, gensrc=['google/api/http.pb.cc', 'google/api/annotations.pb.cc'], link='wraps')
BINS['e2e_asan'] = dict(mut=['mut_router.cc', 'shim_typeinfo.cc'], mutflags=ASAN, harness=E2E, repo='all', flags=ASAN, inc=SHIM,
                        gen=True, gensrc=['google/api/http.pb.cc', 'google/api/annotations.pb.cc'], link=['-fsanitize=address,undefined'])

SOAK = ['core.cc', 'alloc.cc', 'simsched.cc', 'jsonmodel.cc', 'transmodel.cc', 'soak_scn.cc', 'shim_impl.cc']
BINS['soak_fast'] = dict(mut=['mut_router.cc', 'shim_typeinfo.cc'], mutflags=[], harness=SOAK, repo='all', flags=[], inc=SHIM,
                         gen=True, gensrc=['google/api/http.pb.cc', 'google/api/annotations.pb.cc'], link=[])


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b'\0')
    return m.hexdigest()[:24]


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def _tree_hash():
    """Everything a translation unit can include, apart from system headers."""
    fs = sorted(glob.glob(REPO + '/src/include/**/*', recursive=True)) + sorted(glob.glob(REPO + '/src/*.h')) \
        + sorted(glob.glob(SIM + '/**/*.h', recursive=True)) + sorted(glob.glob(SIM + '/**/*.inc', recursive=True)) \
        + sorted(glob.glob(SIM + '/**/*.proto', recursive=True)) + sorted(glob.glob(REPO + '/test/*.proto'))
    parts = []
    for f in fs:
        if os.path.isfile(f):
            parts += [f, _read(f)]
    return _h(*parts)


def _libs():
    return [LIBDIR + '/libprotobuf.a', '-Wl,--start-group'] + sorted(glob.glob(LIBDIR + '/libabsl_*.a')) + ['-Wl,--end-group', '-lz', '-lpthread']


def gen_protos():
    """http.proto / annotations.proto classes, generated from the installed jar."""
    d = os.path.join(BUILD, 'gen')
    stamp = os.path.join(d, 'stamp')
    if os.path.exists(stamp):
        return d
    os.makedirs(d, exist_ok=True)
    import zipfile
    jar = '/usr/share/java/proto-google-common-protos.jar'
    z = zipfile.ZipFile(jar)
    for n in ('google/api/http.proto', 'google/api/annotations.proto'):
        os.makedirs(os.path.join(d, 'p', os.path.dirname(n)), exist_ok=True)
        with open(os.path.join(d, 'p', n), 'wb') as f:
            f.write(z.read(n))
    subprocess.run(['protoc', '-I' + d + '/p', '-I/usr/include', '--cpp_out=' + d, 'google/api/http.proto', 'google/api/annotations.proto'],
                   check=True)
    open(stamp, 'w').close()
    return d


def _compile(job):
    src, flags, obj, optional = job
    if os.path.exists(obj):
        return None
    tmp = obj + '.%d.tmp' % os.getpid()
    p = subprocess.run([CXX, '-c', src, '-o', tmp] + flags, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        if optional:
            return None
        return '%s:\n%s' % (src, p.stdout.decode('utf8', 'replace')[-3000:])
    os.rename(tmp, obj)
    return None


def build(names):
    os.makedirs(BUILD + '/obj', exist_ok=True)
    os.makedirs(BUILD + '/bin', exist_ok=True)
    with open(BUILD + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(names)


def _build(names):
    th = _tree_hash()
    out, jobs, links = {}, {}, []
    for n in names:
        b = BINS[n]
        inc = b.get('inc', []) + COMMON  # shims shadow the system headers
        if b.get('gen'):
            inc += ['-I' + gen_protos()]
        objs = []

        def add(src, flags, optional=False):
            o = '%s/obj/%s.%s.o' % (BUILD, os.path.basename(src), _h(th, src, _read(src), ' '.join(inc + flags)))
            jobs[o] = (src, inc + flags, o, optional)
            objs.append((o, optional))
        # instrumented code first: its copies of inline functions win at link time
        for h in b.get('mut', []):
            add(os.path.join(SIM, h), b['mutflags'])
        known = {'http_template.cc', 'message_reader.cc', 'message_stream.cc', 'path_matcher_node.cc'} | CONVERTER
        for s in repo_sources(b['repo']):
            add(s, b.get('mutflags', b['flags']), optional=os.path.basename(s) not in known)
        for g in b.get('gensrc', []):
            add(os.path.join(BUILD, 'gen', g), b['flags'])
        for h in b['harness']:
            add(os.path.join(SIM, h), b['flags'])
        links.append((n, objs, dict(b, link=_wraps() if b['link'] == 'wraps' else b['link'])))
    with cf.ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(_compile, jobs.values()) if e]
    if errs:
        raise BuildError('\n'.join(errs)[:4000])

    def link(item):
        n, objs, b = item
        objs = [o for o, opt in objs if os.path.exists(o)]
        exe = '%s/bin/%s.%s' % (BUILD, n, _h(' '.join(objs), ' '.join(b['link'])))
        if not os.path.exists(exe):
            tmp = exe + '.%d.tmp' % os.getpid()
            p = subprocess.run([CXX, '-o', tmp] + b['link'] + objs + _libs(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0:
                raise BuildError('link %s:\n%s' % (n, p.stdout.decode('utf8', 'replace')[-3000:]))
            os.rename(tmp, exe)
            olds = sorted(glob.glob('%s/bin/%s.*' % (BUILD, n)), key=os.path.getmtime)
            for o in olds[:-4]:
                os.unlink(o)
        return n, exe
    with cf.ThreadPoolExecutor(4) as ex:
        for n, exe in ex.map(link, links):
            out[n] = exe
    # bound the cache
    objs = sorted(glob.glob(BUILD + '/obj/*.o'), key=os.path.getmtime)
    for o in objs[:-160]:
        os.unlink(o)
    return out
